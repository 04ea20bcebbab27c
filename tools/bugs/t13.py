ID='declarations-reversed'; PROP='C13'
EDITS=[('src/parser/mod.rs','for declaration in &rule.declarations {','for declaration in rule.declarations.iter().rev() {')]
MAIN='''use svgdom::*;
fn main() {
    let doc = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'><style>rect{stroke-width:1;stroke-width:2}</style><rect/></svg>").unwrap();
    let n = doc.svg_element().unwrap().first_child().unwrap();
    let want = AttributeValue::Length(Length::new(2.0, LengthUnit::None));
    assert_eq!(n.attributes().get_value(AttributeId::StrokeWidth), Some(&want));
}
'''
NEEDS='one rule that declares the same property twice'
WHAT='the first declaration of a rule wins over later ones'
