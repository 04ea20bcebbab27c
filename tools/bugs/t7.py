ID='name-case'; PROP='C06'
EDITS=[('src/attributes.rs','''        self.0.iter().any(|a| a.name.as_ref() == name)''','''        self.0.iter().any(|a| match (a.name.as_ref(), name) {
            (crate::QNameRef::Name(a), crate::QNameRef::Name(b)) => a.eq_ignore_ascii_case(b),
            (a, b) => a == b,
        })''')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::new();
    let mut b = doc.create_element(ElementId::Rect);
    b.set_attribute(("data-a", 1.0));
    assert!(!b.has_attribute("Data-A"));
    b.set_attribute_if_none(("Data-A", 2.0));
    assert_eq!(b.attributes().len(), 2);
}
'''
NEEDS='two non-SVG attribute names that differ only in case'
WHAT='contains/has_attribute compare non-SVG names ignoring case, unlike get and insert'
