ID='copy-svg-attrs-only'; PROP='C17'
EDITS=[('src/document.rs','''                for attr in node.attributes().iter() {
                    elem.set_attribute(attr.clone());''','''                for attr in node.attributes().iter().filter(|a| a.is_svg()) {
                    elem.set_attribute(attr.clone());''')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::new();
    let mut b = doc.create_element(ElementId::Rect);
    b.set_attribute(("data-a", 1.0));
    let c = doc.copy_node(b.clone());
    assert!(c.has_attribute("data-a"));
}
'''
NEEDS='copying an element with non-SVG attributes'
WHAT='copy_node loses attributes with non-SVG names'
