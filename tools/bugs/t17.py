ID='nbsp-is-space'; PROP='C21'
EDITS=[('src/parser/text.rs',r'''            '\r' | '\n' | '\t' => ' ',
''',r'''            c if c.is_whitespace() => ' ',
''')]
MAIN='''use svgdom::*;
fn main() {
    let doc = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'><text>a\\u{a0}\\u{a0}b</text></svg>").unwrap();
    let n = doc.svg_element().unwrap().first_child().unwrap().first_child().unwrap();
    assert_eq!(*n.text(), "a\\u{a0}\\u{a0}b");
}
'''
NEEDS='text with white space characters that are not XML white space'
WHAT='no-break spaces are replaced and collapsed'
