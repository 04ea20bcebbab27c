ID='phf-order'; PROP='C08'
EDITS=[('src/attribute_type.rs','''            | AttributeId::LetterSpacing
            | AttributeId::LightingColor
            | AttributeId::Marker
            | AttributeId::MarkerEnd''','''            | AttributeId::LetterSpacing
            | AttributeId::Marker
            | AttributeId::MarkerEnd''')]
PROP='C09'; ID='presentation-lighting-color'
MAIN='''use svgdom::*;
fn main() {
    assert!(AttributeId::LightingColor.is_presentation());
    let doc = Document::from_str("<svg xmlns='http://www.w3.org/2000/svg'><feDiffuseLighting style='lighting-color:red'/></svg>").unwrap();
    let n = doc.root().descendants().find(|n| n.has_tag_name(ElementId::FeDiffuseLighting)).unwrap();
    assert!(n.has_attribute(AttributeId::LightingColor));
}
'''
NEEDS='the lighting-color property, in particular coming from CSS'
WHAT='lighting-color is no longer a presentation attribute'
