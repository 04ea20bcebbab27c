ID='remove-first-link-only'; PROP='C04'
EDITS=[('src/document.rs','''                        if *link == node {
                            ids.push(attr.name.clone())
                        }''','''                        if *link == node {
                            ids.push(attr.name.clone());
                            break;
                        }'''),('src/document.rs','''        // remove all attributes that linked to this node
        let linked_nodes = node.linked_nodes().clone();''','''        // remove all attributes that linked to this node
        let mut linked_nodes = node.linked_nodes().clone();
        linked_nodes.dedup();''')]
MAIN='''use svgdom::*;
fn main() {
    let mut doc = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'><linearGradient id='a'/><rect fill='url(#a)' stroke='url(#a)'/></svg>").unwrap();
    let a = doc.root().descendants().find(|n| *n.id() == "a").unwrap();
    let r = doc.root().descendants().find(|n| n.has_tag_name(ElementId::Rect)).unwrap();
    doc.remove_node(a);
    assert!(!r.has_attribute(AttributeId::Fill));
    assert!(!r.has_attribute(AttributeId::Stroke));
}
'''
NEEDS='a node that links twice to the removed one'
WHAT='only one of several links from the same node is removed, the other one dangles'
