ID='crosslink-paint-back'; PROP='C05'
EDITS=[('src/node.rs','''        if self.linked_nodes().iter().any(|n| *n == node) {''','''        if self.linked_nodes().iter().any(|n| *n == node && n.attributes().iter().any(|a| match a.value { AttributeValue::Link(_) | AttributeValue::FuncLink(_) => true, _ => false })) {''')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::new();
    let mut a = doc.create_element(ElementId::LinearGradient);
    let mut b = doc.create_element(ElementId::Pattern);
    doc.root().append(a.clone());
    doc.root().append(b.clone());
    a.set_id("a");
    b.set_id("b");
    b.set_attribute_checked((AttributeId::Fill, AttributeValue::Paint(a.clone(), None))).unwrap();
    assert!(match a.set_attribute_checked((AttributeId::Href, AttributeValue::Link(b.clone()))) { Err(Error::ElementCrosslink) => true, _ => false });
    assert!(!a.has_attribute(AttributeId::Href));
    assert_eq!(b.uses_count(), 0);
}
'''
NEEDS='the node that links back refers to the element only by a paint (fill or stroke) and by no other kind of link'
WHAT='a mutual reference is accepted instead of ElementCrosslink'
