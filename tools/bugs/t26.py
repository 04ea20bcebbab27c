ID='non-svg-attr-opts'; PROP='C15'
EDITS=[('src/writer.rs','''    for attr in attrs.iter() {
        if let QName::Name(ref name) = attr.name {
            xml.write_attribute_raw(name, |buf| attr.value.write_buf_opt(&opt.values, buf));''','''    for attr in attrs.iter().skip(ids.len()) {
        if let QName::Name(ref name) = attr.name {
            xml.write_attribute_raw(name, |buf| attr.value.write_buf_opt(&opt.values, buf));''')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    svg.set_attribute(("data-x", "1"));
    svg.set_attribute((AttributeId::X, "x"));
    doc.root().append(svg);
    let s = doc.to_string();
    assert!(s.contains("data-x"), "{}", s);
}
'''
NEEDS='a non-SVG attribute stored before an SVG attribute'
WHAT='the non-SVG attribute is not written'
