ID='crosslink-late'; PROP='C05'
EDITS=[('src/node.rs','''        // check for recursion 2
        if self.linked_nodes().iter().any(|n| *n == node) {
            return Err(Error::ElementCrosslink);
        }

        // we must remove existing attribute to prevent dangling links
        self.remove_attribute(name.as_ref());
''','''        // we must remove existing attribute to prevent dangling links
        self.remove_attribute(name.as_ref());

        // check for recursion 2
        if self.linked_nodes().iter().any(|n| *n == node) {
            return Err(Error::ElementCrosslink);
        }
''')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::new();
    let mut a = doc.create_element(ElementId::ClipPath);
    let mut b = doc.create_element(ElementId::Rect);
    a.set_id("a"); b.set_id("b");
    b.set_attribute((AttributeId::ClipPath, a.clone()));
    a.set_attribute((AttributeId::Mask, 1.0));
    assert!(a.set_attribute_checked((AttributeId::Mask, b.clone())).is_err());
    assert!(a.has_attribute(AttributeId::Mask));
}
'''
NEEDS='a rejected crosslink for a name that already has a value'
WHAT='set_attribute_checked removes the old attribute before reporting the crosslink error'
