ID='preserve-after-tspan'; PROP='C15'
EDITS=[('src/writer.rs','''                if node.has_tag_name(ElementId::Text) {
                    xml.set_preserve_whitespaces(false);''','''                if node.has_tag_name(ElementId::Text) || node.has_tag_name(ElementId::Tref) {
                    xml.set_preserve_whitespaces(false);''')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    let mut text = doc.create_element(ElementId::Text);
    let tref = doc.create_element(ElementId::Tref);
    doc.root().append(svg.clone());
    svg.append(text.clone());
    text.append(tref.clone());
    text.append(doc.create_node(NodeType::Text, "a"));
    let s = doc.to_string();
    assert!(s.contains("<tref/>a</text>"), "{}", s);
}
'''
NEEDS='a tref inside a text element followed by more text'
WHAT='white space is added to the text after the tref'
