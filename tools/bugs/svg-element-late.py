ID='svg-element-late'; PROP='C19'
EDITS=[('src/document.rs','''        for (id, n) in self.root().children().svg() {
            if id == ElementId::Svg {''','''        for (id, n) in self.root().children().filter(|n| n.previous_sibling().map_or(true, |p| !p.is_text())).svg() {
            if id == ElementId::Svg {''')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::new();
    let t = doc.create_node(NodeType::Text, "x");
    let svg = doc.create_element(ElementId::Svg);
    doc.root().append(t);
    doc.root().append(svg.clone());
    assert_eq!(doc.svg_element(), Some(svg));
}
'''
NEEDS='the svg element follows a text node below the root of a document'
WHAT='svg_element does not find it'
