ID='xlink-only-children'; PROP='C15'
EDITS=[('src/writer.rs','node.descendants().any(|n| n.has_attribute(AttributeId::Href))','node.descendants().skip(1).any(|n| n.has_attribute(AttributeId::Href) && n.has_parent())')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    svg.set_attribute((AttributeId::Href, "x"));
    doc.root().append(svg);
    assert!(doc.to_string().contains("xmlns:xlink"));
}
'''
NEEDS='xlink:href only on the outermost svg element'
WHAT='the xlink namespace is not declared although it is used'
