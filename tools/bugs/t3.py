ID='children-finished'; PROP='C18'
EDITS=[('src/tree.rs','''    fn finished(&self) -> bool {
        match self.next_back {
            Some(ref next_back) => next_back.next_sibling() == self.next,
            _ => true,
        }
    }
}

impl<T> Iterator for Children<T> {''','''    fn finished(&self) -> bool {
        match (&self.next, &self.next_back) {
            (&Some(ref next), &Some(ref back)) => {
                back.next_sibling().map(|n| n == *next) == Some(true)
            }
            _ => self.next.is_none() && self.next_back.is_none(),
        }
    }
}

impl<T> Iterator for Children<T> {''')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::new();
    let mut svg = doc.create_element(ElementId::Svg);
    doc.root().append(svg.clone());
    for _ in 0..3 { let n = doc.create_element(ElementId::Rect); svg.append(n); }
    let mut it = svg.children();
    let mut n = 0;
    while let Some(_) = it.next() { n += 1; }
    assert_eq!(n, 3);
    // the exhausted iterator must stay exhausted from both ends
    assert!(it.next_back().is_none());
}
'''
NEEDS='exhausting children() from the front and then asking from the back'
WHAT='children() yields nodes a second time'
