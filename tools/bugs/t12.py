ID='stop-opacity-range'; PROP='C12'
EDITS=[('src/parser/mod.rs','''        | AId::StrokeOpacity
        | AId::StopOpacity => {
''','''        | AId::StrokeOpacity => {
'''),('src/parser/mod.rs','''        AId::StrokeMiterlimit => {
''','''          AId::StrokeMiterlimit
        | AId::StopOpacity => {
''')]
MAIN='''use svgdom::*;
fn main() {
    let doc = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'><stop stop-opacity='1.5'/></svg>").unwrap();
    let n = doc.svg_element().unwrap().first_child().unwrap();
    assert_eq!(n.attributes().get_value(AttributeId::StopOpacity), Some(&AttributeValue::Number(1.0)));
}
'''
NEEDS='a stop-opacity outside of 0..1'
WHAT='stop-opacity is not clamped'
