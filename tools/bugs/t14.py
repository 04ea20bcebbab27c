ID='last-duplicate-id'; PROP='C14'
EDITS=[('src/parser/mod.rs','match doc.root().descendants().find(|n| *n.id() == d.iri) {','match doc.root().descendants().filter(|n| *n.id() == d.iri).last() {')]
MAIN='''use svgdom::*;
fn main() {
    let doc = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'><linearGradient id='a'/><radialGradient id='a'/><rect fill='url(#a)'/></svg>").unwrap();
    let svg = doc.svg_element().unwrap();
    assert_eq!(svg.first_child().unwrap().uses_count(), 1);
}
'''
NEEDS='two elements with the same id'
WHAT='a reference resolves to the last element with the id'
