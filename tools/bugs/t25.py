ID='unicode-ascii-raw'; PROP='C15'
EDITS=[('src/writer.rs','''    if unicode.starts_with("&#") {''','''    if unicode.starts_with('&') && unicode.len() > 1 {''')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    svg.set_attribute((AttributeId::Unicode, "&a"));
    doc.root().append(svg);
    let s = doc.to_string();
    assert!(s.contains("&#x26;&#x61;"), "{}", s);
}
'''
NEEDS='a unicode attribute that starts with an ampersand but is not a reference'
WHAT='the ampersand is written raw, which is not well-formed'
