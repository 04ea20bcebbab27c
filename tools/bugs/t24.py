ID='paint-fallback-color-only'; PROP='C16'
EDITS=[('src/attribute_value.rs','''                        PaintFallback::CurrentColor => buf.extend_from_slice(b"currentColor"),
                        PaintFallback::Color(ref c) => c.write_buf_opt(opt, buf),''','''                        PaintFallback::CurrentColor => buf.extend_from_slice(b"currentColor"),
                        PaintFallback::Color(ref c) => c.write_buf(buf),''')]
MAIN='''use svgdom::*;
fn main() {
    let doc = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'><linearGradient id='lg'/><rect fill='url(#lg) #ff0000'/></svg>").unwrap();
    let mut opt = WriteOptions::default();
    opt.values.trim_hex_colors = true;
    let s = doc.to_string_with_opt(&opt);
    assert!(s.contains("url(#lg) #f00"), "{}", s);
}
'''
NEEDS='a paint with a colour fallback written with trim_hex_colors'
WHAT='the write options are ignored for the fallback colour'
