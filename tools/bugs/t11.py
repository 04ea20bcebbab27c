ID='animate-motion-fill'; PROP='C11'
EDITS=[('src/parser/mod.rs','''                | ElementId::AnimateColor
                | ElementId::AnimateMotion
''','''                | ElementId::AnimateColor
''')]
MAIN='''use svgdom::*;
fn main() {
    let doc = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'><animateMotion fill='freeze'/></svg>").unwrap();
    let n = doc.svg_element().unwrap().first_child().unwrap();
    assert!(n.has_attribute(AttributeId::Fill));
}
'''
NEEDS='a fill attribute on one particular animation element'
WHAT='the animation attribute fill of animateMotion is parsed as a paint and lost'
