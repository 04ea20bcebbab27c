ID='unlink-all'; PROP='C03'
EDITS=[('src/node.rs','''                    let index = node.borrow().linked_nodes.iter().position(|n| n == self).unwrap();
                    node.borrow_mut().linked_nodes.remove(index);''','''                    node.borrow_mut().linked_nodes.retain(|n| n != self);''')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::new();
    let mut a = doc.create_element(ElementId::LinearGradient);
    let mut b = doc.create_element(ElementId::Rect);
    a.set_id("a"); b.set_id("b");
    b.set_attribute((AttributeId::Fill, a.clone()));
    b.set_attribute((AttributeId::Stroke, a.clone()));
    assert_eq!(a.uses_count(), 2);
    b.remove_attribute(AttributeId::Fill);
    assert_eq!(a.uses_count(), 1);
}
'''
NEEDS='one node with two link attributes to the same target, then removal or replacement of one of them'
WHAT='removing one of several links drops all users entries of the node'
