ID='missing-stroke-target'; PROP='C14'
EDITS=[('src/parser/mod.rs','''                        if d.attr_id == AttributeId::Fill {
''','''                        if d.attr_id == AttributeId::Fill || d.attr_id == AttributeId::Mask {
''')]
MAIN='''use svgdom::*;
fn main() {
    let doc = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'><g mask='url(#m)'/></svg>").unwrap();
    let n = doc.svg_element().unwrap().first_child().unwrap();
    assert_eq!(n.attributes().get_value(AttributeId::Mask), Some(&AttributeValue::String("url(#m)".to_string())));
}
'''
NEEDS='a mask reference to a missing element'
WHAT='an unresolved mask becomes none instead of keeping the reference text'
