ID='drain-many'; PROP='C04'
EDITS=[('src/document.rs','''                *count += 1;''','''                if *count < 5 { *count += 1; } else { *count = 5; }''')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    doc.root().append(svg.clone());
    for _ in 0..7 { let r = doc.create_element(ElementId::Rect); svg.append(r); }
    let root = doc.root();
    assert_eq!(doc.drain(root, |n| n.has_tag_name(ElementId::Rect)), 7);
}
'''
NEEDS='more than five nodes are removed by one drain call'
WHAT='drain returns a wrong number of removed nodes'
