ID='adjacent-only-direct'; PROP='C22'
EDITS=[('src/parser/mod.rs','self.0.prev_siblings().filter(|n| n.is_element()).nth(0).map(XmlNode)','self.0.prev_siblings().nth(0).filter(|n| n.is_element()).map(XmlNode)')]
MAIN='''use svgdom::*;
fn main() {
    let doc = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'><style>g + rect {fill:red}</style><g/> <rect/></svg>").unwrap();
    let n = doc.svg_element().unwrap().last_child().unwrap();
    assert!(n.has_attribute(AttributeId::Fill));
}
'''
NEEDS='white space or a comment between sibling elements'
WHAT='adjacent sibling selectors and :first-child look at the previous node instead of the previous element'
