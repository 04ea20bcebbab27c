ID='nested-foreign-elements'; PROP='C23'
EDITS=[('src/parser/mod.rs','''            if xml_node.tag_name().namespace() != Some("http://www.w3.org/2000/svg") {
                return Ok(());
            }
''','''            if parent.is_root() && xml_node.tag_name().namespace() != Some("http://www.w3.org/2000/svg") {
                return Ok(());
            }
''')]
MAIN='''use svgdom::*;
fn main() {
    let doc = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'><m:a xmlns:m='http://example.com'/></svg>").unwrap();
    assert!(!doc.svg_element().unwrap().has_children());
}
'''
NEEDS='an element of another namespace that has the local name of an SVG element'
WHAT='foreign elements inside the svg element are taken for SVG elements'
