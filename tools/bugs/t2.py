ID='insert-before-first'; PROP='C01'
EDITS=[('src/tree.rs','''            if let Some(previous_sibling_weak) = self_borrow.previous_sibling.take() {
                if let Some(previous_sibling_strong) = previous_sibling_weak.upgrade() {
                    new_sibling_borrow.previous_sibling = Some(previous_sibling_weak);
                    previous_sibling_opt = Some(previous_sibling_strong);
                }
            }
            self_borrow.previous_sibling = Some(Rc::downgrade(&new_sibling.0));
''','''            if let Some(previous_sibling_weak) = self_borrow.previous_sibling.as_ref() {
                previous_sibling_opt = previous_sibling_weak.upgrade();
                new_sibling_borrow.previous_sibling = Some(previous_sibling_weak.clone());
                self_borrow.previous_sibling = Some(Rc::downgrade(&new_sibling.0));
            }
''')]
EDITS=[(EDITS[0][0],EDITS[0][1],'''            let prev = self_borrow.previous_sibling.clone();
            if let Some(previous_sibling_weak) = prev {
                previous_sibling_opt = previous_sibling_weak.upgrade();
                new_sibling_borrow.previous_sibling = Some(previous_sibling_weak);
                self_borrow.previous_sibling = Some(Rc::downgrade(&new_sibling.0));
            }
''')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    let mut r = doc.create_element(ElementId::Rect);
    let n = doc.create_element(ElementId::Path);
    doc.root().append(svg.clone());
    svg.append(r.clone());
    r.insert_before(n.clone());
    assert!(svg.first_child() == Some(n.clone()));
    assert!(r.previous_sibling() == Some(n));
    assert_eq!(svg.children().rev().count(), 2);
}
'''
NEEDS='inserting before a first child, then walking backwards'
WHAT='the old first child has no previous sibling'
