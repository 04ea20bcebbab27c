ID='drop-tree-only'; PROP='C19'
EDITS=[('src/document.rs','''        for (_, node) in self.storage.iter_mut() {
            node.attributes_mut().clear();''','''        let nodes: Vec<Node> = self.root.descendants().collect();
        for mut node in nodes {
            node.attributes_mut().clear();''')]
MAIN='''use svgdom::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static N: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(1, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn once() {
    let mut doc = Document::new();
    let mut a = doc.create_element(ElementId::ClipPath);
    let mut b = doc.create_element(ElementId::Rect);
    a.set_id("a");
    b.set_attribute((AttributeId::ClipPath, a.clone()));
}
fn main() {
    once();
    let n = N.load(SeqCst);
    for _ in 0..50 { once(); }
    assert!(N.load(SeqCst) - n < 10, "leak: {}", N.load(SeqCst) - n);
}
'''
NEEDS='linked nodes that are not attached to the tree when the document is dropped'
WHAT='dropping the document leaks unattached nodes that link to each other'
