ID='self-paint-panic'; PROP='C07'
EDITS=[('src/parser/mod.rs','''                    d.node.set_attribute_checked((d.attr_id, (node.clone(), d.fallback)))
''','''                    d.node.set_attribute((d.attr_id, (node.clone(), d.fallback)));
                    Ok(())
''')]
MAIN='''use svgdom::*;
fn main() {
    let _ = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'><pattern id='p' fill='url(#p)'/></svg>");
}
'''
NEEDS='a fill or stroke that references its own element (or closes a cycle)'
WHAT='from_str panics on a crosslink through a paint'
