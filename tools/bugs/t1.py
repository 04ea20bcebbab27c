ID='detach-last-weak'; PROP='C01'
EDITS=[('src/tree.rs','''        } else if let Some(parent_ref) = parent_weak.as_ref() {
            if let Some(parent_strong) = parent_ref.upgrade() {
                let mut parent_borrow = parent_strong.borrow_mut();
                parent_borrow.last_child = previous_sibling_weak;
            }
        }
''','''        } else if previous_sibling_opt.is_some() {
            if let Some(parent_strong) = parent_weak.as_ref().and_then(|p| p.upgrade()) {
                let mut parent_borrow = parent_strong.borrow_mut();
                parent_borrow.last_child = previous_sibling_weak;
            }
        }
''')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    let mut r = doc.create_element(ElementId::Rect);
    doc.root().append(svg.clone());
    svg.append(r.clone());
    r.detach();
    assert!(svg.last_child().is_none());
    assert!(svg.first_child().is_none());
    assert_eq!(svg.children().rev().count(), 0);
}
'''
NEEDS='a node that is the only child of its parent is detached and the parent is inspected from the back afterwards'
WHAT='the parent keeps last_child pointing to the detached node'
