//! Entry points for the static analyser.  Nothing here is ever executed: each function
//! only instantiates a piece of svgdom's *public* API at concrete types, so that the MIR
//! exporter sees monomorphic bodies.  The analyser starts from these functions.
#![allow(clippy::all)]
use svgdom::*;
use std::str::FromStr;

// ---- tree mutators and accessors
pub fn t_append(n: &mut Node, c: Node) { n.append(c) }
pub fn t_prepend(n: &mut Node, c: Node) { n.prepend(c) }
pub fn t_insert_after(n: &mut Node, c: Node) { n.insert_after(c) }
pub fn t_insert_before(n: &mut Node, c: Node) { n.insert_before(c) }
pub fn t_detach(n: &mut Node) { n.detach() }
pub fn t_parent(n: &Node) -> Option<Node> { n.parent() }
pub fn t_first_child(n: &Node) -> Option<Node> { n.first_child() }
pub fn t_last_child(n: &Node) -> Option<Node> { n.last_child() }
pub fn t_next_sibling(n: &Node) -> Option<Node> { n.next_sibling() }
pub fn t_previous_sibling(n: &Node) -> Option<Node> { n.previous_sibling() }
pub fn t_has_children(n: &Node) -> bool { n.has_children() }
pub fn t_has_parent(n: &Node) -> bool { n.has_parent() }
pub fn t_is_detached(n: &Node) -> bool { n.is_detached() }
pub fn t_root(n: &Node) -> Node { n.root() }
pub fn t_eq(a: &Node, b: &Node) -> bool { a == b }
pub fn t_clone(a: &Node) -> Node { a.clone() }

// ---- tree iterators
pub fn i_ancestors(n: &Node) -> Ancestors<NodeData> { n.ancestors() }
pub fn i_preceding(n: &Node) -> PrecedingSiblings<NodeData> { n.preceding_siblings() }
pub fn i_following(n: &Node) -> FollowingSiblings<NodeData> { n.following_siblings() }
pub fn i_children(n: &Node) -> Children<NodeData> { n.children() }
pub fn i_descendants(n: &Node) -> Descendants<NodeData> { n.descendants() }
pub fn i_traverse(n: &Node) -> Traverse<NodeData> { n.traverse() }
pub fn i_ancestors_next(i: &mut Ancestors<NodeData>) -> Option<Node> { i.next() }
pub fn i_preceding_next(i: &mut PrecedingSiblings<NodeData>) -> Option<Node> { i.next() }
pub fn i_following_next(i: &mut FollowingSiblings<NodeData>) -> Option<Node> { i.next() }
pub fn i_children_next(i: &mut Children<NodeData>) -> Option<Node> { i.next() }
pub fn i_children_next_back(i: &mut Children<NodeData>) -> Option<Node> { i.next_back() }
pub fn i_descendants_next(i: &mut Descendants<NodeData>) -> Option<Node> { i.next() }
pub fn i_traverse_next(i: &mut Traverse<NodeData>) -> Option<NodeEdge<NodeData>> { i.next() }
pub fn i_traverse_next_back(i: &mut Traverse<NodeData>) -> Option<NodeEdge<NodeData>> { i.next_back() }

pub fn i_edge_eq(a: &NodeEdge<NodeData>, b: &NodeEdge<NodeData>) -> bool { a == b }

// ---- node API
pub fn n_node_type(n: &Node) -> NodeType { n.node_type() }
pub fn n_is_root(n: &Node) -> bool { n.is_root() }
pub fn n_is_element(n: &Node) -> bool { n.is_element() }
pub fn n_is_comment(n: &Node) -> bool { n.is_comment() }
pub fn n_is_text(n: &Node) -> bool { n.is_text() }
pub fn n_set_text(n: &mut Node, s: &str) { n.set_text(s) }
pub fn n_text(n: &Node) -> String { n.text().clone() }
pub fn n_text_mut(n: &mut Node, s: String) { *n.text_mut() = s; }
pub fn n_text_push(n: &mut Node, s: &str) { n.text_mut().push_str(s); }
pub fn n_tag_name(n: &Node) -> TagName { n.tag_name().clone() }
pub fn n_attributes_len(n: &Node) -> usize { n.attributes().len() }
pub fn n_linked_len(n: &Node) -> usize { n.linked_nodes().len() }
pub fn n_id(n: &Node) -> String { n.id().clone() }
pub fn n_has_id(n: &Node) -> bool { n.has_id() }
pub fn n_set_id(n: &mut Node, s: String) { n.set_id(s) }
pub fn n_is_svg_element(n: &Node) -> bool { n.is_svg_element() }
pub fn n_tag_id(n: &Node) -> Option<ElementId> { n.tag_id() }
pub fn n_has_tag_name(n: &Node, t: TagNameRef) -> bool { n.has_tag_name(t) }
pub fn n_set_tag_name(n: &mut Node, t: TagNameRef) { n.set_tag_name(t) }
pub fn n_has_attribute(n: &Node, a: AttributeQNameRef) -> bool { n.has_attribute(a) }
pub fn n_set_attribute(n: &mut Node, a: Attribute) { n.set_attribute(a) }
pub fn n_set_attribute_checked(n: &mut Node, a: Attribute) -> Result<(), Error> { n.set_attribute_checked(a) }
pub fn n_set_attribute_if_none(n: &mut Node, a: Attribute) { n.set_attribute_if_none(a) }
pub fn n_remove_attribute(n: &mut Node, a: AttributeQNameRef) { n.remove_attribute(a) }
pub fn n_is_used(n: &Node) -> bool { n.is_used() }
pub fn n_uses_count(n: &Node) -> usize { n.uses_count() }
pub fn n_from_link(n: AttributeQNameRef<'static>, t: Node) -> Attribute { Attribute::from((n, t)) }
pub fn n_from_paint(n: AttributeQNameRef<'static>, t: Node, f: Option<PaintFallback>) -> Attribute { Attribute::from((n, (t, f))) }
pub fn n_from_value(n: AttributeQNameRef<'static>, v: AttributeValue) -> Attribute { Attribute::from((n, v)) }

// ---- attribute list
pub fn a_get<'x>(a: &'x Attributes, n: AttributeQNameRef) -> Option<&'x Attribute> { a.get(n) }
pub fn a_get_mut<'x>(a: &'x mut Attributes, n: AttributeQNameRef) -> Option<&'x mut Attribute> { a.get_mut(n) }
pub fn a_get_value<'x>(a: &'x Attributes, n: AttributeQNameRef) -> Option<&'x AttributeValue> { a.get_value(n) }
pub fn a_get_value_mut<'x>(a: &'x mut Attributes, n: AttributeQNameRef) -> Option<&'x mut AttributeValue> { a.get_value_mut(n) }
pub fn a_contains(a: &Attributes, n: AttributeQNameRef) -> bool { a.contains(n) }
pub fn a_len(a: &Attributes) -> usize { a.len() }
pub fn a_is_empty(a: &Attributes) -> bool { a.is_empty() }
pub fn a_iter_svg(a: &Attributes) { for x in a.iter().svg() { sink_attr(x.0, x.1) } }
pub fn a_iter_svg_mut(a: &mut Attributes) { for x in a.iter_mut().svg() { sink_attr_mut(x.0, x.1) } }
pub fn a_iter(a: &Attributes) { for x in a.iter() { sink_any(x) } }
pub fn a_iter_mut(a: &mut Attributes) { for x in a.iter_mut() { sink_any_mut(x) } }
pub fn a_into_iter(a: Attributes) { for x in a { sink_own(x) } }
pub fn i_children_svg(n: &Node) { for x in n.children().svg() { sink_node(x.0, x.1) } }
pub fn i_descendants_svg(n: &Node) { for x in n.descendants().svg() { sink_node(x.0, x.1) } }
#[inline(never)]
pub fn sink_any(_: &Attribute) {}
#[inline(never)]
pub fn sink_any_mut(_: &mut Attribute) {}
#[inline(never)]
pub fn sink_own(_: Attribute) {}
#[inline(never)]
pub fn sink_node(_: ElementId, _: Node) {}
#[inline(never)]
pub fn sink_attr(_: AttributeId, _: &Attribute) {}
#[inline(never)]
pub fn sink_attr_mut(_: AttributeId, _: &mut Attribute) {}

// ---- document
pub fn d_new() -> Document { Document::new() }
pub fn d_create_element(d: &mut Document, t: TagNameRef) -> Node { d.create_element(t) }
pub fn d_create_node(d: &mut Document, t: NodeType, s: String) -> Node { d.create_node(t, s) }
pub fn d_root(d: &Document) -> Node { d.root() }
pub fn d_svg_element(d: &Document) -> Option<Node> { d.svg_element() }
pub fn d_remove_node(d: &mut Document, n: Node) { d.remove_node(n) }
pub fn d_drain(d: &mut Document, n: Node) -> usize { d.drain(n, |x| drain_pred(x)) }
#[inline(never)]
pub fn drain_pred(_: &Node) -> bool { false }
pub fn d_copy_node(d: &mut Document, n: Node) -> Node { d.copy_node(n) }
pub fn d_copy_node_deep(d: &mut Document, n: Node) -> Node { d.copy_node_deep(n) }
pub fn d_drop(d: Document) { drop(d) }

// ---- parser, writer
pub fn p_from_str(s: &str) -> Result<Document, ParserError> { Document::from_str(s) }
pub fn w_write(d: &Document, o: &WriteOptions) -> String { d.to_string_with_opt(o) }
pub fn w_value(v: &AttributeValue, b: &mut Vec<u8>, o: &ValueWriteOptions) { v.write_buf_opt(o, b) }
pub fn w_display(v: &AttributeValue) -> String { v.to_string() }
pub fn w_display_attr(v: &Attribute) -> String { v.to_string() }
pub fn w_display_node(v: &Node) -> String { v.to_string() }
pub fn w_display_attrs(v: &Attributes) -> String { v.to_string() }
pub fn w_debug_node(v: &Node) -> String { format!("{:?}", v) }
pub fn w_debug_attrs(v: &Attributes) -> String { format!("{:?}", v) }
pub fn w_display_eid(v: &ElementId) -> String { v.to_string() }
pub fn w_debug_eid(v: &ElementId) -> String { format!("{:?}", v) }
pub fn w_display_aid(v: &AttributeId) -> String { v.to_string() }
pub fn w_debug_aid(v: &AttributeId) -> String { format!("{:?}", v) }
pub fn w_display_aname(v: &QName<AttributeId>) -> String { v.to_string() }
pub fn w_display_ename(v: &QName<ElementId>) -> String { v.to_string() }
pub fn w_display_error(v: &Error) -> String { v.to_string() }
pub fn w_display_perror(v: &ParserError) -> String { v.to_string() }
pub fn pe_from_error(v: Error) -> ParserError { v.into() }
pub fn w_to_string(v: &Document) -> String { v.to_string() }
pub fn w_default() -> WriteOptions { WriteOptions::default() }

// ---- tables
pub fn e_from_str(s: &str) -> Option<ElementId> { ElementId::from_str(s) }
pub fn e_as_str(e: &ElementId) -> &'static str { e.as_str() }
pub fn at_from_str(s: &str) -> Option<AttributeId> { AttributeId::from_str(s) }
pub fn at_as_str(e: &AttributeId) -> &'static str { e.as_str() }
pub fn v_default_value(a: AttributeId) -> Option<AttributeValue> { AttributeValue::default_value(a) }
pub fn v_new_default(a: AttributeId) -> Option<Attribute> { Attribute::new_default(a) }

macro_rules! preds { ($t:ty; $($f:ident = $m:ident),* $(,)?) => { $( pub fn $f(x: &$t) -> bool { x.$m() } )* } }
preds!(AttributeValue;
    v_is_none = is_none, v_is_inherit = is_inherit, v_is_current_color = is_current_color,
    v_is_aspect_ratio = is_aspect_ratio, v_is_color = is_color, v_is_length = is_length,
    v_is_length_list = is_length_list, v_is_angle = is_angle, v_is_link = is_link,
    v_is_func_link = is_func_link, v_is_paint = is_paint, v_is_number = is_number,
    v_is_number_list = is_number_list, v_is_path = is_path, v_is_points = is_points,
    v_is_string = is_string, v_is_transform = is_transform, v_is_viewbox = is_viewbox,
    v_is_link_container = is_link_container,
);
preds!(Attribute;
    ax_is_none = is_none, ax_is_inherit = is_inherit, ax_is_current_color = is_current_color,
    ax_is_aspect_ratio = is_aspect_ratio, ax_is_color = is_color, ax_is_length = is_length,
    ax_is_length_list = is_length_list, ax_is_link = is_link,
    ax_is_func_link = is_func_link, ax_is_paint = is_paint, ax_is_number = is_number,
    ax_is_number_list = is_number_list, ax_is_path = is_path, ax_is_points = is_points,
    ax_is_string = is_string, ax_is_transform = is_transform, ax_is_viewbox = is_viewbox,
    ax_is_link_container = is_link_container, ax_is_svg = is_svg,
);
preds!(AttributeId;
    ct_is_presentation = is_presentation, ct_is_inheritable = is_inheritable,
    ct_is_animation_event = is_animation_event, ct_is_graphical_event = is_graphical_event,
    ct_is_document_event = is_document_event, ct_is_conditional_processing = is_conditional_processing,
    ct_is_core = is_core, ct_is_fill = is_fill, ct_is_stroke = is_stroke,
);
preds!(Attribute;
    ca_is_presentation = is_presentation, ca_is_inheritable = is_inheritable,
    ca_is_animation_event = is_animation_event, ca_is_graphical_event = is_graphical_event,
    ca_is_document_event = is_document_event, ca_is_conditional_processing = is_conditional_processing,
    ca_is_core = is_core, ca_is_fill = is_fill, ca_is_stroke = is_stroke,
);
preds!(Node;
    ce_is_referenced = is_referenced, ce_is_basic_shape = is_basic_shape, ce_is_shape = is_shape,
    ce_is_container = is_container, ce_is_text_content = is_text_content,
    ce_is_text_content_child = is_text_content_child, ce_is_graphic = is_graphic,
    ce_is_gradient = is_gradient, ce_is_paint_server = is_paint_server,
    ce_is_filter_primitive = is_filter_primitive,
);
pub fn ax_id(a: &Attribute) -> Option<AttributeId> { a.id() }
pub fn ax_has_id(a: &Attribute, i: AttributeId) -> bool { a.has_id(i) }
pub fn q_has_id(q: &AttributeQName, i: AttributeId) -> bool { q.has_id(i) }
pub fn q_ref_has_id(q: &AttributeQNameRef, i: AttributeId) -> bool { q.has_id(i) }
pub fn q_as_ref(q: &AttributeQName) -> AttributeQNameRef { q.as_ref() }
pub fn q_from_ref(q: AttributeQNameRef) -> AttributeQName { q.into() }
pub fn q_from_id(i: AttributeId) -> AttributeQNameRef<'static> { AttributeQNameRef::from(i) }
pub fn q_from_str(i: &str) -> AttributeQNameRef { AttributeQNameRef::from(i) }
macro_rules! froms { ($($f:ident = $t:ty),* $(,)?) => { $( pub fn $f(x: $t) -> AttributeValue { AttributeValue::from(x) } )* } }
froms!(
    vf_aspect_ratio = AspectRatio, vf_color = Color, vf_length = Length, vf_length_list = LengthList,
    vf_angle = Angle, vf_f64 = f64, vf_number_list = NumberList, vf_path = Path, vf_points = Points,
    vf_string = String, vf_transform = Transform, vf_viewbox = ViewBox,
    vf_str = &'static str, vf_i32 = i32, vf_i32_unit = (i32, LengthUnit), vf_f64_unit = (f64, LengthUnit),
    vf_fallback = PaintFallback,
);
pub fn v_clone(v: &AttributeValue) -> AttributeValue { v.clone() }
pub fn v_eq(v: &AttributeValue, w: &AttributeValue) -> bool { v == w }
pub fn ax_clone(v: &Attribute) -> Attribute { v.clone() }

// ---- plain-loop equivalents of std iterator methods that std implements with raw pointers;
// the exporter substitutes these bodies for slice/vec/str iterators.
pub fn m_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if f(x) { return true; } } false }
pub fn m_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool { while let Some(x) = it.next() { if !f(x) { return false; } } true }
pub fn m_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> { while let Some(x) = it.next() { if p(&x) { return Some(x); } } None }
pub fn m_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> { while let Some(x) = it.next() { let r = f(x); if r.is_some() { return r; } } None }
pub fn m_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> { let mut i = 0; while let Some(x) = it.next() { if p(x) { return Some(i); } i += 1; } None }
pub fn m_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B { let mut acc = init; while let Some(x) = it.next() { acc = f(acc, x); } acc }
pub fn m_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x); } }
pub fn m_count<I: Iterator>(mut it: I) -> usize { let mut i = 0; while let Some(_) = it.next() { i += 1; } i }
pub fn m_last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut l = None; while let Some(x) = it.next() { l = Some(x); } l }
pub fn m_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> { loop { let x = it.next(); if x.is_none() || n == 0 { return x; } n -= 1; } }
pub fn m_vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> { let mut v = Vec::new(); for x in it { v.push(x); } v }
pub fn m_vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) { for x in it { v.push(x); } }

pub trait MPush { fn mpush(self, s: &mut String); }
impl MPush for char { fn mpush(self, s: &mut String) { s.push(self); } }
impl<'a> MPush for &'a char { fn mpush(self, s: &mut String) { s.push(*self); } }
impl<'a> MPush for &'a str { fn mpush(self, s: &mut String) { s.push_str(self); } }
impl MPush for String { fn mpush(self, s: &mut String) { s.push_str(&self); } }
pub fn m_string_from_iter<I: IntoIterator>(it: I) -> String where I::Item: MPush { let mut s = String::new(); for x in it { x.mpush(&mut s); } s }
pub fn m_string_extend<I: IntoIterator>(s: &mut String, it: I) where I::Item: MPush { for x in it { x.mpush(s); } }
pub fn m_vec_dedup<T: PartialEq>(v: &mut Vec<T>) { let mut i = 1; while i < v.len() { if v[i] == v[i - 1] { v.remove(i); } else { i += 1; } } }
pub fn m_vec_dedup_by<T, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) { let mut i = 1; while i < v.len() { let mut a = v.remove(i); let e = f(&mut a, &mut v[i - 1]); if !e { v.insert(i, a); i += 1; } } }
pub fn m_vec_dedup_by_key<T, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut f: F) { let mut i = 1; while i < v.len() { let a = f(&mut v[i]); let b = f(&mut v[i - 1]); if a == b { v.remove(i); } else { i += 1; } } }
pub fn m_slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool { for y in s { if y == x { return true; } } false }
pub fn m_slice_sort_by<T, F: FnMut(&T, &T) -> std::cmp::Ordering>(s: &mut [T], mut f: F) { let mut i = 1; while i < s.len() { let mut j = i; while j > 0 && f(&s[j], &s[j - 1]) == std::cmp::Ordering::Less { s.swap(j, j - 1); j -= 1; } i += 1; } }
pub fn m_slice_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) { let mut i = 1; while i < s.len() { let mut j = i; while j > 0 && f(&s[j]) < f(&s[j - 1]) { s.swap(j, j - 1); j -= 1; } i += 1; } }
pub fn m_slice_sort<T: Ord>(s: &mut [T]) { let mut i = 1; while i < s.len() { let mut j = i; while j > 0 && s[j] < s[j - 1] { s.swap(j, j - 1); j -= 1; } i += 1; } }
pub fn m_slice_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }
pub fn m_vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) { for x in it { v.push(*x); } }
pub fn m_rposition<I: ExactSizeIterator + DoubleEndedIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> { let mut i = it.len(); while let Some(x) = it.next_back() { i -= 1; if p(x) { return Some(i); } } None }
pub fn m_vec_split_off<T>(v: &mut Vec<T>, at: usize) -> Vec<T> { let mut r = Vec::new(); if at > v.len() { panic!("`at` split index is out of bounds"); } while v.len() > at { let x = v.remove(at); r.push(x); } r }
pub fn m_vec_resize<T: Clone>(v: &mut Vec<T>, n: usize, x: T) { while v.len() > n { v.pop(); } while v.len() < n { v.push(x.clone()); } }
pub fn m_zip<A: Iterator, U: IntoIterator>(a: A, u: U) -> (A, U::IntoIter) { (a, u.into_iter()) }
pub fn m_zip_next<A: Iterator, B: Iterator>(z: &mut (A, B)) -> Option<(A::Item, B::Item)> { let a = z.0.next()?; let b = z.1.next()?; Some((a, b)) }
// string methods with a predicate as the pattern
pub fn m_str_replace_f<F: FnMut(char) -> bool>(s: &str, mut f: F, to: &str) -> String { let mut r = String::new(); for c in s.chars() { if f(c) { r.push_str(to); } else { r.push(c); } } r }
pub fn m_str_find_f<F: FnMut(char) -> bool>(s: &str, mut f: F) -> Option<usize> { for (i, c) in s.char_indices() { if f(c) { return Some(i); } } None }
pub fn m_str_rfind_f<F: FnMut(char) -> bool>(s: &str, mut f: F) -> Option<usize> { let mut r = None; for (i, c) in s.char_indices() { if f(c) { r = Some(i); } } r }
pub fn m_str_contains_f<F: FnMut(char) -> bool>(s: &str, mut f: F) -> bool { for c in s.chars() { if f(c) { return true; } } false }
pub fn m_str_starts_with_f<F: FnMut(char) -> bool>(s: &str, mut f: F) -> bool { match s.chars().next() { Some(c) => f(c), None => false } }
pub fn m_str_ends_with_f<F: FnMut(char) -> bool>(s: &str, mut f: F) -> bool { match s.chars().next_back() { Some(c) => f(c), None => false } }
pub fn m_str_trim_start_f<F: FnMut(char) -> bool>(s: &str, mut f: F) -> &str { let mut k = s.len(); for (i, c) in s.char_indices() { if !f(c) { k = i; break; } } &s[k..] }
pub fn m_str_trim_end_f<F: FnMut(char) -> bool>(s: &str, mut f: F) -> &str { let mut k = s.len(); let mut it = s.char_indices(); while let Some((i, c)) = it.next_back() { if f(c) { k = i; } else { break; } } &s[..k] }
pub fn m_str_trim_f<F: FnMut(char) -> bool>(s: &str, mut f: F) -> &str { let t = m_str_trim_start_f(s, &mut f); m_str_trim_end_f(t, &mut f) }
pub fn m_str_split_f<F: FnMut(char) -> bool>(s: &str, mut f: F) -> std::vec::IntoIter<&str> { let mut v = Vec::new(); let mut p = 0; for (i, c) in s.char_indices() { if f(c) { v.push(&s[p..i]); p = i + c.len_utf8(); } } v.push(&s[p..]); v.into_iter() }
pub fn m_string_retain<F: FnMut(char) -> bool>(s: &mut String, mut f: F) { let t = std::mem::take(s); for c in t.chars() { if f(c) { s.push(c); } } }
// maps and sets as association lists (the analysis gives the std types that representation; their iteration order stays unknown)
pub fn m_map_insert<K: PartialEq, V>(m: &mut Vec<(K, V)>, k: K, v: V) -> Option<V> { let mut i = 0; while i < m.len() { if m[i].0 == k { return Some(std::mem::replace(&mut m[i].1, v)); } i += 1; } m.push((k, v)); None }
pub fn m_map_get<'a, K: std::borrow::Borrow<Q>, V, Q: PartialEq + ?Sized>(m: &'a Vec<(K, V)>, k: &Q) -> Option<&'a V> { let mut i = 0; while i < m.len() { if m[i].0.borrow() == k { return Some(&m[i].1); } i += 1; } None }
pub fn m_map_get_mut<'a, K: std::borrow::Borrow<Q>, V, Q: PartialEq + ?Sized>(m: &'a mut Vec<(K, V)>, k: &Q) -> Option<&'a mut V> { let mut i = 0; while i < m.len() { if m[i].0.borrow() == k { return Some(&mut m[i].1); } i += 1; } None }
pub fn m_map_contains<K: std::borrow::Borrow<Q>, V, Q: PartialEq + ?Sized>(m: &Vec<(K, V)>, k: &Q) -> bool { let mut i = 0; while i < m.len() { if m[i].0.borrow() == k { return true; } i += 1; } false }
pub fn m_map_remove<K: std::borrow::Borrow<Q>, V, Q: PartialEq + ?Sized>(m: &mut Vec<(K, V)>, k: &Q) -> Option<V> { let mut i = 0; while i < m.len() { if m[i].0.borrow() == k { return Some(m.remove(i).1); } i += 1; } None }
pub fn m_map_index<'a, K: std::borrow::Borrow<Q>, V, Q: PartialEq + ?Sized>(m: &'a Vec<(K, V)>, k: &Q) -> &'a V { let mut i = 0; while i < m.len() { if m[i].0.borrow() == k { return &m[i].1; } i += 1; } panic!("no entry found for key") }
pub struct MEntry<'a, K, V>(&'a mut Vec<(K, V)>, K);
pub fn m_map_entry<K, V>(m: &mut Vec<(K, V)>, k: K) -> MEntry<K, V> { MEntry(m, k) }
pub fn m_entry_or_insert<'a, K: PartialEq, V>(e: MEntry<'a, K, V>, v: V) -> &'a mut V { let MEntry(m, k) = e; let mut i = 0; while i < m.len() { if m[i].0 == k { return &mut m[i].1; } i += 1; } m.push((k, v)); let n = m.len() - 1; &mut m[n].1 }
pub fn m_entry_or_insert_with<'a, K: PartialEq, V, F: FnOnce() -> V>(e: MEntry<'a, K, V>, f: F) -> &'a mut V { let MEntry(m, k) = e; let mut i = 0; while i < m.len() { if m[i].0 == k { return &mut m[i].1; } i += 1; } m.push((k, f())); let n = m.len() - 1; &mut m[n].1 }
pub fn m_entry_or_default<'a, K: PartialEq, V: Default>(e: MEntry<'a, K, V>) -> &'a mut V { m_entry_or_insert_with(e, V::default) }
pub fn m_map_from_iter<K: PartialEq, V, I: IntoIterator<Item = (K, V)>>(it: I) -> Vec<(K, V)> { let mut m = Vec::new(); for (k, v) in it { m_map_insert(&mut m, k, v); } m }
pub fn m_set_insert<T: PartialEq>(m: &mut Vec<T>, k: T) -> bool { let mut i = 0; while i < m.len() { if m[i] == k { return false; } i += 1; } m.push(k); true }
pub fn m_set_contains<T: std::borrow::Borrow<Q>, Q: PartialEq + ?Sized>(m: &Vec<T>, k: &Q) -> bool { let mut i = 0; while i < m.len() { if m[i].borrow() == k { return true; } i += 1; } false }
pub fn m_set_remove<T: std::borrow::Borrow<Q>, Q: PartialEq + ?Sized>(m: &mut Vec<T>, k: &Q) -> bool { let mut i = 0; while i < m.len() { if m[i].borrow() == k { m.remove(i); return true; } i += 1; } false }
pub fn m_set_from_iter<T: PartialEq, I: IntoIterator<Item = T>>(it: I) -> Vec<T> { let mut m = Vec::new(); for k in it { m_set_insert(&mut m, k); } m }
pub fn m_write_attribute_raw<F: FnOnce(&mut Vec<u8>)>(w: &mut xmlwriter::XmlWriter, name: &str, f: F) { let mut b = Vec::new(); f(&mut b); m_attr_bytes(w, name, b) }
#[inline(never)]
pub fn m_attr_bytes(w: &mut xmlwriter::XmlWriter, name: &str, b: Vec<u8>) { let _ = (w, name, b); }
