"""Models of the std types svgdom is built on (Rc, RefCell, Vec, String, slices, mem, fmt, ...)."""
import re
from interp import *

M = {}          # path -> handler
def model(*paths):
    def d(f):
        for p in paths: M[p] = f
        return f
    return d
def cont(name):
    def d(f):
        CONTS[name] = f
        return f
    return d

def rd(I, st, ptr):
    """read through a pointer value"""
    loc, proj = I.deref_ptr(st, ptr)
    v = I.read(st, loc, proj)
    if v[0] == 'lazy': raise NeedMaterialize(loc, proj, v)
    return v
def wr(I, st, ptr, v):
    loc, proj = I.deref_ptr(st, ptr)
    I.write(st, loc, proj, v)
def deep(I, st, v, n=4):
    """value of a (possibly nested) reference"""
    while v[0] == 'ref' and n:
        v = rd(I, st, v); n -= 1
    return v
def strv(I, st, v):
    """string contents of &str / &String / &&str"""
    n = 4
    while v[0] == 'ref' and n:
        v = rd(I, st, v); n -= 1
    if v[0] == 't' and v[1] == 'box': v = v[2]
    return v
def finish(I, st, v):
    """a native continuation is done: give v to the waiting placeholder frame"""
    fr = st.frames.pop()
    return I.deliver(st, fr, v)
def ident(I, st, inst, a): return [(st, a[0])]

# ---------------------------------------------------------------- identity-like
for p in ['<I as std::iter::IntoIterator>::into_iter', '<T as std::convert::From<T>>::from', 'std::hint::must_use',
          'std::clone::impls::<impl std::clone::Clone for &T>::clone', 'std::convert::AsRef::as_ref']:
    pass
M['<I as std::iter::IntoIterator>::into_iter'] = ident
M['<T as std::convert::From<T>>::from'] = ident
M['std::hint::must_use'] = ident
M['<T as std::borrow::Borrow<T>>::borrow'] = ident
M['std::hint::black_box'] = ident

@model('std::mem::replace', 'core::mem::replace')
def m_replace(I, st, inst, a):
    old = rd(I, st, a[0]); wr(I, st, a[0], a[1]); return [(st, old)]
@model('std::mem::take')
def m_take(I, st, inst, a):
    old = rd(I, st, a[0])
    t = I.p.types[inst.args[0]]
    nv = None
    if t['k'] == 'adt':
        n = t['n'].split('::')[-1]
        nv = {'Option': NONE, 'Vec': ('vec', ()), 'String': ('str', ''), 'HashMap': ('vec', ()), 'BTreeMap': ('vec', ()), 'HashSet': ('vec', ()), 'BTreeSet': ('vec', ()), 'Slab': ('vec', ())}.get(n)
    elif t['k'] in ('uint', 'int', 'bool'): nv = ('int', 0)
    if nv is None: raise Stop('mem::take of %s' % t.get('s'))
    wr(I, st, a[0], nv); return [(st, old)]
@model('std::mem::swap')
def m_swap(I, st, inst, a):
    x = rd(I, st, a[0]); y = rd(I, st, a[1]); wr(I, st, a[0], y); wr(I, st, a[1], x); return [(st, UNIT)]
@model('std::mem::drop')
def m_drop(I, st, inst, a):
    t = I.p.types[inst.args[0]]
    if t.get('drop') is not None:
        st.fresh()
        o = st.next
        st.heap[o] = {'val': a[0]}
        return [('call', st, I.p.insts[t['drop']], [('ref', ('H', o), ())], ('fin_unit',))]
    I.drop_value(st, a[0]); return [(st, UNIT)]
@model('std::mem::forget')
def m_forget(I, st, inst, a): return [(st, UNIT)]
@cont('fin_unit')
def c_fin_unit(I, st, fr, v): return finish(I, st, UNIT)
@cont('dropped')
def c_dropped(I, st, fr, v):
    ptr = fr.cont[1]
    loc, proj = I.deref_ptr(st, ptr)
    I.drop_value(st, I.read(st, loc, proj))
    I.write(st, loc, proj, UNINIT)
    return [st]

# ---------------------------------------------------------------- panics
def m_panic(I, st, inst, a):
    msg = inst.path.split('::')[-1]
    if a and a[0][0] == 'str': msg += ': ' + a[0][1]
    return [I.panic(st, msg)]
for p in ['core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_explicit', 'std::rt::begin_panic', 'core::panicking::assert_failed',
          'std::option::unwrap_failed', 'std::option::expect_failed', 'core::option::unwrap_failed', 'core::option::expect_failed',
          'std::result::unwrap_failed', 'core::result::unwrap_failed', 'core::panicking::unreachable_display', 'core::panicking::panic_bounds_check',
          'core::panicking::panic_nounwind', 'core::slice::index::slice_index_fail', 'core::panicking::panic_display', 'core::str::slice_error_fail', 'core::panicking::assert_failed_inner', 'std::rt::panic_fmt']:
    M[p] = m_panic

# ---------------------------------------------------------------- Rc / RefCell
@model('std::cell::RefCell::<T>::new')
def cell_new(I, st, inst, a): return [(st, ('cell', a[0]))]
@model('std::rc::Rc::<T>::new')
def rc_new(I, st, inst, a):
    v = a[0]
    o = st.fresh()
    st.heap[o] = {'val': v[1] if v[0] == 'cell' else v, 'bor': 0, 'new': True}
    return [(st, ('rc', o))]
@model('<std::rc::Rc<T, A> as std::clone::Clone>::clone', '<std::rc::Weak<T, A> as std::clone::Clone>::clone')
def rc_clone(I, st, inst, a): return [(st, rd(I, st, a[0]))]
@model('<std::rc::Rc<T, A> as std::ops::Deref>::deref')
def rc_deref(I, st, inst, a):
    v = rd(I, st, a[0])
    if v[0] == 'rc': return [(st, ('ref', ('H', v[1]), ()))]
    raise Stop('Rc deref of %s' % v[0])
@model('std::rc::Rc::<T, A>::downgrade')
def rc_down(I, st, inst, a):
    v = rd(I, st, a[0])
    if v[0] != 'rc': raise Stop('downgrade')
    return [(st, ('weak', v[1]))]
@model('std::rc::Weak::<T, A>::upgrade')
def rc_up(I, st, inst, a):
    v = rd(I, st, a[0])
    if v[0] != 'weak': raise Stop('upgrade of %s' % v[0])
    return [(st, some(('rc', v[1])))]
@model('std::rc::Rc::<T, A>::ptr_eq', 'std::rc::Weak::<T, A>::ptr_eq')
def rc_ptr_eq(I, st, inst, a):
    x = rd(I, st, a[0]); y = rd(I, st, a[1])
    if x[0] in ('rc', 'weak') and y[0] in ('rc', 'weak'):
        return I.same_node(st, x[1], y[1]) if hasattr(I, 'same_node') and I.same_node else [(st, boolv(x[1] == y[1]))]
    raise Stop('ptr_eq')
@model('std::rc::Rc::<T, A>::strong_count', 'std::rc::Rc::<T, A>::weak_count')
def rc_count(I, st, inst, a): return [(st, st.sym())]

def cell_obj(I, st, ptr):
    loc, proj = I.deref_ptr(st, ptr)
    if loc[0] == 'H' and not proj: return loc[1]
    raise Stop('RefCell at %r' % (loc,))
def guard(I, st, o, kind):
    h = st.heap[o]
    b = h.get('bor', 0)
    if kind == 'mut':
        if b != 0: return None
        h['bor'] = -1
    else:
        if b < 0: return None
        h['bor'] = b + 1
    return ('guard', kind, o, ('ref', ('H', o), ()))
@model('std::cell::RefCell::<T>::borrow')
def cell_borrow(I, st, inst, a):
    g = guard(I, st, cell_obj(I, st, a[0]), 'shr')
    return [(st, g)] if g else [I.panic(st, 'RefCell already mutably borrowed')]
@model('std::cell::RefCell::<T>::borrow_mut')
def cell_borrow_mut(I, st, inst, a):
    g = guard(I, st, cell_obj(I, st, a[0]), 'mut')
    return [(st, g)] if g else [I.panic(st, 'RefCell already borrowed')]
@model('std::cell::RefCell::<T>::try_borrow')
def cell_try(I, st, inst, a):
    g = guard(I, st, cell_obj(I, st, a[0]), 'shr')
    return [(st, ok(g) if g else err(UNIT))]
@model('std::cell::RefCell::<T>::try_borrow_mut')
def cell_try_mut(I, st, inst, a):
    g = guard(I, st, cell_obj(I, st, a[0]), 'mut')
    return [(st, ok(g) if g else err(UNIT))]
@model('std::cell::RefCell::<T>::replace')
def cell_replace(I, st, inst, a):
    o = cell_obj(I, st, a[0])
    if st.heap[o].get('bor', 0): return [I.panic(st, 'RefCell already borrowed')]
    old = st.heap[o]['val']; st.heap[o]['val'] = a[1]; return [(st, old)]
@model("<std::cell::Ref<'_, T> as std::ops::Deref>::deref", "<std::cell::RefMut<'_, T> as std::ops::Deref>::deref", "<std::cell::RefMut<'_, T> as std::ops::DerefMut>::deref_mut")
def guard_deref(I, st, inst, a):
    g = rd(I, st, a[0])
    if g[0] != 'guard':
        if is_opaque(g): return [(st, ('t', '*', g))]
        raise Stop('deref of non-guard %s' % g[0])
    return [(st, g[3])]
def closure_inst(I, ty):
    t = I.p.types[ty]
    if t['k'] == 'closure': return I.p.insts[t['i']], t['ck']
    if t['k'] == 'fndef': return I.p.insts[t['i']], 'fn'
    raise Stop('callable %s' % t['k'])
def call_closure(I, st, ty, f, args, c):
    """model result that calls closure value f (by value) with args, then continuation c"""
    inst, ck = closure_inst(I, ty)
    if ck == 'fn': return ('call', st, inst, list(args), c)
    if ck in ('Fn', 'FnMut'):
        if f[0] != 'ref' or f[1][0] == '?':
            o = st.fresh(); st.heap[o] = {'val': f}
            f = ('ref', ('H', o), ())
    return ('call', st, inst, [f, ('adt', 0, tuple(args))], c)
@model("std::cell::Ref::<'b, T>::map", "std::cell::RefMut::<'b, T>::map")
def ref_map(I, st, inst, a):
    return [call_closure(I, st, inst.args[-1], a[1], [a[0][3]], ('refmap', a[0]))]
@cont('refmap')
def c_refmap(I, st, fr, v):
    g = fr.cont[1]
    return finish(I, st, ('guard', g[1], g[2], v))
@model("std::cell::Ref::<'b, T>::clone")
def ref_clone(I, st, inst, a):
    g = rd(I, st, a[0]); st.heap[g[2]]['bor'] += 1; return [(st, g)]

# ---------------------------------------------------------------- Vec / slices
def vecval(I, st, ptr):
    v = rd(I, st, ptr)
    n = 3
    while v[0] == 'ref' and n: v = rd(I, st, v); n -= 1
    if is_opaque(v) : return ('vec', (('seg', ('any', v)),))
    if v[0] != 'vec': raise Stop('vec expected, got %s' % v[0])
    return v
def vecptr(I, st, ptr):
    """pointer to the place holding the vec"""
    v = rd(I, st, ptr); n = 3
    while v[0] == 'ref' and n:
        ptr = v; v = rd(I, st, ptr); n -= 1
    return ptr
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default', 'std::vec::Vec::<T, A>::new_in')
def vec_new(I, st, inst, a): return [(st, ('vec', ()))]
@model('std::boxed::Box::<T>::new_uninit')
def box_uninit(I, st, inst, a):
    """`vec![..]`: the elements are written into a new box, which then becomes the vector"""
    o = ('box', st.fresh()); st.heap[o] = {'val': ('adt', 0, (UNIT, ('adt', 0, (UNINIT,))))}
    return [(st, ('adt', 0, (('ref', ('H', o), ()), UNIT)))]
@model('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(I, st, inst, a):
    v = rd(I, st, a[0][2][0])[2][1][2][0]
    if v[0] != 'vec': raise Stop('vec! of %s' % v[0])
    return [(st, v)]
@model('std::boxed::Box::<T>::new')
def box_new(I, st, inst, a):
    if 'guard' in repr(a[0])[:20000]: raise Stop('boxed borrow')
    o = ('box', st.fresh()); st.heap[o] = {'val': a[0]}
    return [(st, ('adt', 0, (('ref', ('H', o), ()), UNIT)))]
@model('std::vec::from_elem')
def vec_from_elem(I, st, inst, a):
    n = I.simp(st, a[1])
    if n[0] != 'int' or n[1] > 64 or a[0][0] not in ('int', 'str', 'adt', 'vec') or 'ref' in repr(a[0])[:20000]: raise Stop('vec![x; n]')
    return [(st, ('vec', (a[0],) * n[1]))]
@model('<std::vec::Vec<T> as std::convert::From<[T; N]>>::from')
def vec_from_array(I, st, inst, a): return [(st, a[0])]
@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow')
def vec_deref(I, st, inst, a): return [(st, a[0])]
@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len')
def vec_len(I, st, inst, a):
    v = vecval(I, st, a[0])
    n = I.veclen(v)
    return [(st, n if n[0] == 'int' else I.simp(st, n))]
@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def vec_is_empty(I, st, inst, a):
    v = vecval(I, st, a[0])
    if any(x[0] != 'seg' for x in v[1]): return [(st, FALSE)]
    if not v[1]: return [(st, TRUE)]
    return split_bool(I, st, ('t', 'Eq', ('int', 0), ('t', 'len', v)))
def split_bool(I, st, t):
    t = I.simp(st, t)
    return [(st, t)]
@model('std::vec::Vec::<T, A>::push')
def vec_push(I, st, inst, a):
    p = vecptr(I, st, a[0]); v = vecval(I, st, p)
    items = v[1] + (a[1],)
    cap = I.o.get('vec_cap', 12)
    if len(items) > cap:
        if I.o.get('taint_widen'): raise Stop('vector of more than %d elements' % cap)
        items = (('seg', ('any', ('sym', 'pushed'))),)
    wr(I, st, p, ('vec', items)); return [(st, UNIT)]
def known_index(I, st, v, i):
    """item index for a concrete or symbolic element index, else None"""
    i = I.simp(st, i)
    if i[0] == 'int':
        if any(x[0] == 'seg' for x in v[1][:i[1] + 1]): return None
        return i[1]
    if i[0] == 't' and i[1] == 'at' and i[2] == v: return i[3]
    return None
def oob(I, st, what): return I.panic(st, what)
@model('std::vec::Vec::<T, A>::remove', 'std::vec::Vec::<T, A>::swap_remove')
def vec_remove(I, st, inst, a):
    p = vecptr(I, st, a[0]); v = vecval(I, st, p)
    k = known_index(I, st, v, a[1])
    if k is None:
        st.taint = st.taint | {'Vec::remove(unknown index)'}
        wr(I, st, p, ('vec', (('seg', ('any', st.sym())),)))
        return [(st, st.sym())]
    if k >= len(v[1]): return [I.panic(st, 'Vec::remove out of bounds')]
    x = v[1][k]
    if x[0] == 'seg':
        r = []
        for s2, e in seg_elem(I, st.copy(), x):
            wr(I, s2, p, ('vec', v[1][:k] + (('seg', ('lossy', x[1])),) + v[1][k + 1:]))
            r.append((s2, e))
        return r
    if inst.path.endswith('swap_remove') and len(v[1]) > k + 1:
        if v[1][-1][0] == 'seg': st.ghost['reordered'] = st.ghost.get('reordered', ()) + (v[1][-1][1],)
        items = v[1][:k] + (v[1][-1],) + v[1][k + 1:-1] if v[1][-1][0] != 'seg' else v[1][:k] + v[1][k + 1:]
        wr(I, st, p, ('vec', items))
    else:
        wr(I, st, p, ('vec', v[1][:k] + v[1][k + 1:]))
    return [(st, x)]
@model('std::vec::Vec::<T, A>::insert')
def vec_insert(I, st, inst, a):
    p = vecptr(I, st, a[0]); v = vecval(I, st, p)
    k = known_index(I, st, v, a[1])
    if k is None or (k < len(v[1]) and v[1][k][0] == 'seg'):
        n = I.simp(st, a[1])
        if n == ('int', 0) : k = 0
        elif n == I.veclen(v): k = len(v[1])
        else: raise Stop('Vec::insert at unknown index')
    wr(I, st, p, ('vec', v[1][:k] + (a[2],) + v[1][k:])); return [(st, UNIT)]
@model('std::vec::Vec::<T, A>::pop')
def vec_pop(I, st, inst, a):
    p = vecptr(I, st, a[0]); v = vecval(I, st, p)
    res = []
    items = v[1]
    while True:
        if not items:
            s2 = st.copy(); wr(I, s2, p, ('vec', ())); res.append((s2, NONE)); break
        x = items[-1]
        if x[0] != 'seg':
            s2 = st.copy(); wr(I, s2, p, ('vec', items[:-1])); res.append((s2, some(x))); break
        s2 = st.copy(); wr(I, s2, p, ('vec', items))
        for s3, e in seg_elem(I, s2, x): res.append((s3, some(e)))
        items = items[:-1]
    return res
@model('std::vec::Vec::<T, A>::clear')
def vec_clear(I, st, inst, a):
    p = vecptr(I, st, a[0]); v = vecval(I, st, p)
    I.drop_value(st, v)
    wr(I, st, p, ('vec', ())); return [(st, UNIT)]
@model('std::vec::Vec::<T, A>::truncate')
def vec_truncate(I, st, inst, a):
    p = vecptr(I, st, a[0]); v = vecval(I, st, p); n = I.simp(st, a[1])
    if n[0] == 'int' and not any(x[0] == 'seg' for x in v[1][:n[1]]):
        wr(I, st, p, ('vec', v[1][:n[1]])); return [(st, UNIT)]
    raise Stop('truncate')
@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit', 'std::string::String::reserve', 'std::string::String::shrink_to_fit')
def noop(I, st, inst, a): return [(st, UNIT)]
@model('std::vec::Vec::<T, A>::capacity', 'std::string::String::capacity')
def capa(I, st, inst, a): return [(st, st.sym())]
@model('std::vec::Vec::<T, A>::append')
def vec_append(I, st, inst, a):
    p = vecptr(I, st, a[0]); q = vecptr(I, st, a[1]); v = vecval(I, st, p); w = vecval(I, st, q)
    wr(I, st, p, ('vec', v[1] + w[1])); wr(I, st, q, ('vec', ())); return [(st, UNIT)]
@model('std::vec::Vec::<T, A>::extend_from_slice')
def vec_efs(I, st, inst, a):
    p = vecptr(I, st, a[0]); v = vecval(I, st, p)
    w = strv(I, st, a[1])
    if w[0] in ('str',) or (w[0] == 't' and w[1] == 'bytes') :
        wr(I, st, p, ('vec', v[1] + (('chunk', w),))); return [(st, UNIT)]
    w = vecval(I, st, a[1])
    wr(I, st, p, ('vec', v[1] + w[1])); return [(st, UNIT)]
@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone', 'std::slice::<impl [T]>::to_vec', '<T as std::borrow::ToOwned>::to_owned', 'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned')
def vec_clone(I, st, inst, a):
    # element clones of Node / Attribute / scalars are structural copies
    return [(st, deep(I, st, a[0]))]

# --- element access
def elem_ptr(I, st, p, k):
    loc, proj = I.deref_ptr(st, p)
    if loc[0] == 'P' and not proj: return ('ref', ('H', None), ())
    return ('ref', loc, proj + (('e', k),))
def seg_elem(I, st, seg):
    """arbitrary element of a summarised segment -> [(st, value)]"""
    h = getattr(I, 'seg_hook', None)
    if h is not None:
        nm = seg[1]
        while nm[0] == 'lossy': nm = nm[1]
        r = h(I, st, nm)
        if r is not None: return r
    return [(st, st.sym())]
def seg_ptr(I, st, seg):
    out = []
    for s2, v in seg_elem(I, st, seg):
        if v[0] == 'ref' or (is_opaque(v) and False):
            pass
        o = s2.fresh(); s2.heap[o] = {'val': v, 'tmp': True}
        out.append((s2, ('ref', ('H', o), ())))
    return out
def item_ptr(I, st, p, v, k):
    x = v[1][k]
    if x[0] == 'seg': return seg_ptr(I, st.copy(), x)
    loc, proj = I.deref_ptr(st, p)
    if loc[0] == 'P':
        st.heap.setdefault(loc, {'val': v})
    return [(st, ('ref', loc, proj + (('e', k),)))]
@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def sl_first(I, st, inst, a):
    p = vecptr(I, st, a[0]); v = vecval(I, st, p); r = []
    for k in range(len(v[1])):
        s2 = st.copy()
        for s3, q in item_ptr(I, s2, p, v, k): r.append((s3, some(q)))
        if v[1][k][0] != 'seg': return r
    r.append((st, NONE)); return r
@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def sl_last(I, st, inst, a):
    p = vecptr(I, st, a[0]); v = vecval(I, st, p); r = []
    for k in reversed(range(len(v[1]))):
        s2 = st.copy()
        for s3, q in item_ptr(I, s2, p, v, k): r.append((s3, some(q)))
        if v[1][k][0] != 'seg': return r
    r.append((st, NONE)); return r
@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut', 'core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut')
def vec_index(I, st, inst, a):
    p = vecptr(I, st, a[0]); v = vecval(I, st, p)
    if a[1][0] == 'adt':
        ty = [x for x in inst.args if x is not None and I.p.types[x].get('n', '').split('::')[-1].startswith('Range')]
        if not ty or any(x[0] == 'seg' for x in v[1]) or 'index_mut' in inst.path: raise Stop('slice range index')
        lo, hi = rng(I, st, a[1], ty[0], len(v[1]))
        if lo > hi or hi > len(v[1]): return [I.panic(st, 'slice index out of bounds')]
        return [(st, ('ref', ('C', ('vec', v[1][lo:hi])), ()))]
    k = known_index(I, st, v, a[1])
    if k is not None:
        if k >= len(v[1]): return [I.panic(st, 'index out of bounds')]
        return item_ptr(I, st, p, v, k)
    n = I.simp(st, a[1])
    if n[0] == 'int' and not any(x[0] == 'seg' for x in v[1]) and n[1] >= len(v[1]):
        return [I.panic(st, 'index out of bounds')]
    o = st.fresh(); st.heap[o] = {'val': st.sym(), 'tmp': True}
    st.taint = st.taint | {'unknown index'}
    return [(st, ('ref', ('H', o), ()))]
@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def sl_get(I, st, inst, a):
    p = vecptr(I, st, a[0]); v = vecval(I, st, p)
    k = known_index(I, st, v, a[1])
    if k is not None:
        if k >= len(v[1]): return [(st, NONE)]
        return [(s, some(q)) for s, q in item_ptr(I, st, p, v, k)]
    raise Stop('slice get')

@model('core::slice::<impl [T]>::swap')
def sl_swap(I, st, inst, a):
    p = vecptr(I, st, a[0]); v = vecval(I, st, p)
    i, j = known_index(I, st, v, a[1]), known_index(I, st, v, a[2])
    if i is None or j is None: raise Stop('swap at unknown index')
    if max(i, j) >= len(v[1]): return [I.panic(st, 'index out of bounds')]
    w = list(v[1]); w[i], w[j] = w[j], w[i]
    wr(I, st, p, ('vec', tuple(w))); return [(st, UNIT)]
@model('core::slice::<impl [T]>::reverse')
def sl_reverse(I, st, inst, a):
    p = vecptr(I, st, a[0]); v = vecval(I, st, p); wr(I, st, p, ('vec', v[1][::-1])); return [(st, UNIT)]
# --- iterators over slices: ('it', ptr, lo, hi, mut) ; over owned vecs: ('into', items)
@model('core::slice::<impl [T]>::iter', "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       'core::slice::<impl [T]>::iter_mut', "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter")
def sl_iter(I, st, inst, a):
    p = vecptr(I, st, a[0])
    v = vecval(I, st, p)
    return [(st, ('it', p, 0, len(v[1])))]
@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter', '<[T; N] as std::iter::IntoIterator>::into_iter', 'std::array::<impl std::iter::IntoIterator for [T; N]>::into_iter', 'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def vec_into_iter(I, st, inst, a):
    v = a[0]
    if is_opaque(v): v = ('vec', (('seg', ('any', v)),))
    if v[0] != 'vec': raise Stop('into_iter of %s' % v[0])
    return [(st, ('into', v))]
def it_next(I, st, itp, it, back=False):
    """[(st, Option<pointer or value>)]"""
    res = []
    if it[0] == 'it':
        p, lo, hi = it[1], it[2], it[3]
        v = vecval(I, st, p)
        while lo < hi:
            k = hi - 1 if back else lo
            x = v[1][k]
            s2 = st.copy() if x[0] == 'seg' else st
            if x[0] == 'seg':
                wr(I, s2, itp, ('it', p, lo, hi))
                for s3, q in seg_ptr(I, s2, x): res.append((s3, some(q)))
                if back: hi -= 1
                else: lo += 1
                continue
            for s3, q in item_ptr(I, s2, p, v, k):
                wr(I, s3, itp, ('it', p, lo, hi - 1) if back else ('it', p, lo + 1, hi))
                res.append((s3, some(q)))
            return res
        wr(I, st, itp, ('it', p, lo, hi))
        res.append((st, NONE)); return res
    if it[0] == 'into':
        items = it[1][1]
        while items:
            x = items[-1] if back else items[0]
            rest = items[:-1] if back else items[1:]
            if x[0] == 'seg':
                s2 = st.copy()
                wr(I, s2, itp, ('into', ('vec', items)))
                for s3, e in seg_elem(I, s2, x): res.append((s3, some(e)))
                items = rest; continue
            wr(I, st, itp, ('into', ('vec', rest)))
            res.append((st, some(x))); return res
        wr(I, st, itp, ('into', ('vec', ())))
        res.append((st, NONE)); return res
    raise Stop('iterator %s' % it[0])
@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next", '<std::vec::IntoIter<T, A> as std::iter::Iterator>::next', "<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next", "<std::vec::Drain<'a, T, A> as std::iter::Iterator>::next", '<std::array::IntoIter<T, N> as std::iter::Iterator>::next')
def m_next(I, st, inst, a): return it_next(I, st, a[0], rd(I, st, a[0]))
@model("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back", '<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back')
def m_next_back(I, st, inst, a): return it_next(I, st, a[0], rd(I, st, a[0]), True)
@model("<std::slice::Iter<'_, T> as std::clone::Clone>::clone")
def it_clone(I, st, inst, a): return [(st, rd(I, st, a[0]))]
def it_count(I, st, it):
    if it[0] == 'it':
        v = vecval(I, st, it[1])
        if any(x[0] == 'seg' for x in v[1][it[2]:it[3]]): return None
        return it[3] - it[2]
    if it[0] == 'into' and not any(x[0] == 'seg' for x in it[1][1]): return len(it[1][1])
    return None
def size_hint(I, st, inst, a):
    n = it_count(I, st, rd(I, st, a[0]))
    return [(st, adt(0, ('int', n), some(('int', n))) if n is not None else adt(0, ('int', 0), NONE))]
def it_len(I, st, inst, a):
    n = it_count(I, st, rd(I, st, a[0]))
    if n is None: raise Stop('length of an unknown iterator')
    return [(st, ('int', n))]
M['std::iter::ExactSizeIterator::len'] = lambda I, st, inst, a: it_len(I, st, inst, a) if rd(I, st, a[0])[0] in ('it', 'into') else None
@model('std::vec::Vec::<T, A>::drain')
def vec_drain(I, st, inst, a):
    if inst.args and I.p.types[inst.args[-1]].get('n', '').endswith('RangeFull'):
        p = vecptr(I, st, a[0]); v = vecval(I, st, p)
        wr(I, st, p, ('vec', ())); return [(st, ('into', v))]
    p = vecptr(I, st, a[0]); v = vecval(I, st, p)
    if any(x[0] == 'seg' for x in v[1]): raise Stop('Vec::drain range')
    lo, hi = rng(I, st, a[1], inst.args[-1], len(v[1]))
    if lo > hi or hi > len(v[1]): return [I.panic(st, 'drain range out of bounds')]
    wr(I, st, p, ('vec', v[1][:lo] + v[1][hi:])); return [(st, ('into', ('vec', v[1][lo:hi])))]

# position / rposition: the index is kept symbolic so that remove()/[] can find the element
@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::position", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::position")
def m_position(I, st, inst, a):
    it = rd(I, st, a[0])
    o = st.fresh(); st.heap[o] = {'val': a[1]}
    st.frames.append(None)   # placeholder slot replaced below
    st.frames.pop()
    return pos_step(I, st, inst, it, ('ref', ('H', o), ()), it[2], inst.args[-1])
def pos_step(I, st, inst, it, f, k, cty):
    """[model results] evaluating the predicate on item k"""
    v = vecval(I, st, it[1])
    if k >= it[3]: return [(st, NONE)]
    r = []
    x = v[1][k]
    if x[0] == 'seg':
        s2 = st.copy()
        r += pos_step(I, s2, inst, it, f, k + 1, cty)
    for s3, q in item_ptr(I, st if x[0] != 'seg' else st.copy(), it[1], v, k):
        r.append(call_closure(I, s3, cty, f, [q], ('pos', it, f, k, cty)))
    return r
@cont('pos')
def c_pos(I, st, fr, v):
    _, it, f, k, cty = fr.cont
    vec = vecval(I, st, it[1])
    out = []
    seg = vec[1][k][0] == 'seg'
    b = I.simp(st, v)
    for want in (1, 0):
        if b[0] == 'int':
            if b[1] != want: continue
            s2 = st.copy()
        else:
            s2 = st.copy()
            if not I.assume(s2, b, want): continue
        if want:
            idx = ('int', k - it[2]) if not any(x[0] == 'seg' for x in vec[1][it[2]:k + 1]) else ('t', 'at', vec, k)
            out += finish(I, s2, some(idx))
        else:
            ph = s2.frames.pop()
            it2, f2 = it, f
            if seg:
                w = admit_native(I, s2, ('pos', k, ph.inst.idx), ph, (it, f))
                if w is None: continue
                it2, f2 = w
            r = pos_step(I, s2, ph.inst, it2, f2, k if seg else k + 1, cty)
            out += resume(I, ph, r)
    return out
def resume(I, ph, r):
    """continue a native loop: results as if the model of ph.inst had returned r"""
    out = []
    for x in r:
        if isinstance(x, Outcome): out.append(x)
        elif len(x) == 2:
            out += I.deliver(x[0], ph, x[1])
        else:
            _, s2, i2, a2, c2 = x
            s2.frames.append(Frame(ph.inst, ph.dest, ph.target, ph.cont, ph.site))
            out += I.invoke(s2, i2, a2, None, None, c2)
    return out
def admit_native(I, st, tag, ph, vals):
    """join point of a native loop (frame ph popped): None if the state was seen, else the renamed vals"""
    st.ghost['native'] = ('adt', 0, tuple(vals))
    st.frames.append(ph)
    I.canon(st)
    st.frames.pop()
    key = (tag,) + tuple((fr.inst.idx, fr.bb, fr.target) for fr in st.frames)
    sig = I.sig(st)
    seen = I.seen.setdefault(key, {})
    vals = st.ghost.pop('native')[2]
    if sig in seen: return None
    seen[sig] = True
    return vals
# retain(f): keep the items for which f is true
@model('std::vec::Vec::<T, A>::retain', 'std::vec::Vec::<T, A>::retain_mut')
def m_retain(I, st, inst, a):
    p = vecptr(I, st, a[0])
    o = st.fresh(); st.heap[o] = {'val': a[1]}
    return retain_step(I, st, p, ('ref', ('H', o), ()), 0, inst.args[-1])
def retain_step(I, st, p, f, k, cty):
    v = vecval(I, st, p)
    if k >= len(v[1]): return [(st, UNIT)]
    r = []
    if v[1][k][0] == 'seg':
        s2 = st.copy()
        r += retain_step(I, s2, p, f, k + 1, cty)
        st = st.copy()
    for s3, q in item_ptr(I, st, p, v, k):
        r.append(call_closure(I, s3, cty, f, [q], ('retain', p, f, k, cty)))
    return r
@cont('retain')
def c_retain(I, st, fr, v):
    _, p, f, k, cty = fr.cont
    out = []
    b = I.simp(st, v)
    for want in (1, 0):
        s2 = st.copy()
        if b[0] == 'int':
            if b[1] != want: continue
        elif not I.assume(s2, b, want): continue
        vec = vecval(I, s2, p)
        seg = vec[1][k][0] == 'seg'
        ph = s2.frames.pop()
        if seg:
            if not want and vec[1][k][1][0] != 'lossy':
                wr(I, s2, p, ('vec', vec[1][:k] + (('seg', ('lossy', vec[1][k][1])),) + vec[1][k + 1:]))
            w = admit_native(I, s2, ('retain', k, ph.inst.idx), ph, (p, f))
            if w is None: continue
            nk = k
            out += resume(I, ph, retain_step(I, s2, w[0], w[1], nk, cty))
            continue
        elif want: nk = k + 1
        else:
            wr(I, s2, p, ('vec', vec[1][:k] + vec[1][k + 1:])); nk = k
        out += resume(I, ph, retain_step(I, s2, p, f, nk, cty))
    return out
@model('core::slice::<impl [T]>::contains')
def sl_contains(I, st, inst, a):
    v = vecval(I, st, a[0]); x = deep(I, st, a[1])
    if x[0] == 'adt' and len(x[2]) == 1 and x[2][0][0] == 'rc':
        r = []
        for it in v[1]:
            if it == x: return [(st, TRUE)]
            if it[0] == 'seg':
                for s2, e in seg_elem(I, st.copy(), it):
                    if e == x: r.append((s2, TRUE))
        r.append((st, FALSE)); return r
    if all(y[0] in ('int', 'str') for y in v[1]) and x[0] in ('int', 'str'):
        return [(st, boolv(x in v[1]))]
    if all(y[0] == 'adt' and not y[2] for y in v[1]):      # field-less enums
        if x[0] == 'adt': return [(st, boolv(x in v[1]))]
        t = inst.args[0]
        res = []
        d = ('t', 'discr', x, t)
        for y in set(v[1]):
            s2 = st.copy()
            if I.assume(s2, d, I.discr_of(t, y[1])): res.append((s2, TRUE))
        if I.exclude(st, d, [I.discr_of(t, y[1]) for y in v[1]]): res.append((st, FALSE))
        return res
    return None

# ---------------------------------------------------------------- scalars / cmp
def isempty(I, st, s):
    if s[0] == 'str': return boolv(s[1] == '')
    if s[0] == 't' and s[1] == 'concat' and any(x[0] == 'str' and x[1] for x in s[2:]): return FALSE
    return I.simp(st, ('t', 'isempty', s))
def strbase(x):
    while x[0] == 't' and x[1] in ('trim', 'trim_start', 'trim_end'): x = x[2]
    return x
def streq(I, st, a, b):
    if a == b: return TRUE
    if a[0] == 'str' and b[0] == 'str': return FALSE
    if a == ('str', ''): return isempty(I, st, b)
    if b == ('str', ''): return isempty(I, st, a)
    for x, y in ((a, b), (b, a)):
        f = st.facts.get(('val', x))
        if f is not None and f[0] == 'str' and y[0] == 'str': return boolv(f == y)
    f = st.facts.get(('t', 'streq', a, b)) or st.facts.get(('t', 'streq', b, a))
    if f is not None and f[0] == '=': return boolv(f[1])
    for x, y in ((a, b), (b, a)):      # inputs assumed to differ from every constant of the program
        if x[0] == 'str' and I.o.get('other') and strbase(y) in I.o['other']:
            I.stats.setdefault('consts', set()).add((strbase(y), x[1])); return FALSE
    return I.simp(st, ('t', 'streq') + tuple(sorted((a, b), key=repr)))
BOOLOPS.update({'isempty', 'streq'})
@model('<std::string::String as std::cmp::PartialEq>::eq', 'core::str::traits::<impl std::cmp::PartialEq for str>::eq', 'std::string::<impl std::cmp::PartialEq<str> for std::string::String>::eq',
       "std::string::<impl std::cmp::PartialEq<&'a str> for std::string::String>::eq", "std::string::<impl std::cmp::PartialEq<std::string::String> for &'a str>::eq", 'std::string::<impl std::cmp::PartialEq<std::string::String> for str>::eq',
       '<std::string::String as std::cmp::PartialEq<str>>::eq', "<std::string::String as std::cmp::PartialEq<&'a str>>::eq", "<&'a str as std::cmp::PartialEq<std::string::String>>::eq", '<str as std::cmp::PartialEq<std::string::String>>::eq')
def m_streq(I, st, inst, a): return [(st, streq(I, st, strv(I, st, a[0]), strv(I, st, a[1])))]
def strty(I, t):
    t = I.p.types[t]
    while t['k'] == 'ref': t = I.p.types[t['e']]
    return t['k'] == 'str' or t.get('n') == 'std::string::String'
def any_eq(I, st, inst, a):
    """equality between any two of str, String and references to them"""
    if not all(strty(I, t) for t in inst.ins): return None
    r = streq(I, st, strv(I, st, a[0]), strv(I, st, a[1]))
    if inst.path.endswith('::ne'): r = boolv(not r[1]) if r[0] == 'int' else ('t', 'Not', r)
    return [(st, r)]
def has_float(I, ty, seen=()):
    t = I.p.types[ty]
    if t['k'] == 'float': return True
    if ty in seen: return False
    if t['k'] == 'adt': return any(has_float(I, f[1], seen + (ty,)) for v in t.get('v', ()) for f in v['f'])
    return t['k'] not in ('int', 'uint', 'bool', 'char', 'str')
def ext_eq(I, st, inst, a):
    """derived equality of an external enum or struct"""
    ts = []
    for t in inst.ins:
        while I.p.types[t]['k'] == 'ref': t = I.p.types[t]['e']
        ts.append(t)
    if ts[0] != ts[1] or I.p.types[ts[0]]['k'] != 'adt': raise Stop('equality of external types: ' + inst.name)
    def eq(x, y, ty):
        if x == y and not has_float(I, ty): return TRUE
        t = I.p.types[ty]
        if x[0] == 'int' and y[0] == 'int': return boolv(x[1] == y[1])
        if t['k'] == 'adt':
            if y[0] != 'adt': x, y = y, x
            if x[0] == 'adt' and y[0] == 'adt':
                if x[1] != y[1]: return FALSE
                rs = [eq(p, q, f[1]) for p, q, f in zip(x[2], y[2], t['v'][x[1]]['f'])]
                if FALSE in rs: return FALSE
                rs = [r for r in rs if r != TRUE]
                if not rs: return TRUE
                if len(rs) == 1: return rs[0]
            elif y[0] == 'adt' and x[0] in ('sym', 't'):
                r = I.simp(st, ('t', 'Eq') + tuple(sorted((('t', 'discr', x, ty), ('int', t['v'][y[1]]['d'])), key=repr)))
                if not y[2] or r == FALSE: return r
        raise Stop('equality of external values: ' + inst.name)
    r = eq(deep(I, st, a[0]), deep(I, st, a[1]), ts[0])
    if inst.path.endswith('::ne'): r = boolv(not r[1]) if r[0] == 'int' else ('t', 'Not', r)
    return [(st, r)]
@model('core::str::<impl str>::eq_ignore_ascii_case')
def m_eqic(I, st, inst, a):
    x, y = strv(I, st, a[0]), strv(I, st, a[1])
    if x == y: return [(st, TRUE)]
    if x[0] == 'str' and y[0] == 'str':
        lo = lambda s: ''.join(c.lower() if c.isascii() else c for c in s)
        return [(st, boolv(lo(x[1]) == lo(y[1])))]
    out = []
    e = streq(I, st, x, y)
    for want in (1, 0):       # equal texts are equal; otherwise nothing is known
        s2 = st.copy()
        if not I.assume(s2, e, want): continue
        out.append((s2, TRUE if want else I.simp(s2, ('t', 'streqi') + tuple(sorted((x, y), key=repr)))))
    return out
@model('core::str::traits::<impl std::cmp::Ord for str>::cmp', '<str as std::cmp::Ord>::cmp')
def m_strcmp(I, st, inst, a):
    x, y = strv(I, st, a[0]), strv(I, st, a[1])
    if x[0] != 'str' or y[0] != 'str':
        if x == y: return [(st, ('adt', 1, ()))]
        raise Stop('order of unknown texts')
    x, y = x[1].encode('utf-8', 'surrogatepass'), y[1].encode('utf-8', 'surrogatepass')
    return [(st, ('adt', 0 if x < y else 1 if x == y else 2, ()))]
BOOLOPS.add('streqi')
def m_is_empty(I, st, inst, a): return [(st, isempty(I, st, strv(I, st, a[0])))]
M['std::string::String::is_empty'] = m_is_empty
M['core::str::<impl str>::is_empty'] = m_is_empty
@model('std::string::String::len', 'core::str::<impl str>::len')
def m_strlen(I, st, inst, a):
    s = strv(I, st, a[0])
    if s[0] == 'str': return [(st, ('int', len(s[1].encode())))]
    return [(st, I.simp(st, ('t', 'slen', s)))]
def m_strid(I, st, inst, a): return [(st, strv(I, st, a[0]))]
for p in ['<std::string::String as std::clone::Clone>::clone', '<std::string::String as std::convert::AsRef<str>>::as_ref', '<std::string::String as std::ops::Deref>::deref',
          'std::str::<impl std::borrow::ToOwned for str>::to_owned', "<std::string::String as std::convert::From<&str>>::from", "<std::string::String as std::convert::From<&'a str>>::from",
          'std::string::String::as_str', 'core::str::<impl str>::to_string', 'std::string::<impl std::string::ToString for str>::to_string', '<std::string::String as std::borrow::Borrow<str>>::borrow',
          '<std::string::String as std::convert::From<&std::string::String>>::from', 'std::string::String::into_boxed_str', 'std::str::<impl str>::into_string', '<std::string::String as std::convert::From<&mut str>>::from', 'std::str::<impl str>::to_string',
          'core::str::<impl str>::as_ref', 'core::str::<impl std::convert::AsRef<str> for str>::as_ref', 'std::string::String::as_mut_str', '<str as std::convert::AsRef<str>>::as_ref']:
    M[p] = m_strid
M['std::string::String::new'] = lambda I, st, inst, a: [(st, ('str', ''))]
M['std::string::String::with_capacity'] = lambda I, st, inst, a: [(st, ('str', ''))]
M['<std::string::String as std::default::Default>::default'] = lambda I, st, inst, a: [(st, ('str', ''))]
def concat(*xs):
    out = []
    for x in xs:
        for y in (x[2:] if x[0] == 't' and x[1] == 'concat' else (x,)):
            if y == ('str', ''): continue
            if out and out[-1][0] == 'str' and y[0] == 'str': out[-1] = ('str', out[-1][1] + y[1])
            else: out.append(y)
    if not out: return ('str', '')
    if len(out) == 1: return out[0]
    if len(out) > 64: return ('t', 'bigstr')
    return ('t', 'concat') + tuple(out)
@model('std::string::String::push_str')
def m_push_str(I, st, inst, a):
    s = strv(I, st, a[0]); wr(I, st, a[0], concat(s, strv(I, st, a[1]))); return [(st, UNIT)]
@model('std::string::String::push')
def m_push(I, st, inst, a):
    s = strv(I, st, a[0]); c = I.simp(st, a[1])
    x = ('str', chr(c[1])) if c[0] == 'int' else ('t', 'char', c)
    wr(I, st, a[0], concat(s, x)); return [(st, UNIT)]
@model('std::string::String::clear')
def m_sclear(I, st, inst, a): wr(I, st, a[0], ('str', '')); return [(st, UNIT)]
@model('core::str::<impl str>::as_bytes', 'std::string::String::as_bytes')
def m_as_bytes(I, st, inst, a): return [(st, ('t', 'bytes', strv(I, st, a[0])))]
@model('std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>::eq')
def m_refeq(I, st, inst, a):
    t = [I.p.types[x] for x in inst.args]
    if all(x['k'] == 'str' for x in t):
        return [(st, streq(I, st, strv(I, st, a[0]), strv(I, st, a[1])))]
    return None
def _pure(op):
    def h(I, st, inst, a): return [(st, ('t', op) + tuple(strv(I, st, x) if x[0] == 'ref' else x for x in a))]
    return h
WS = ' \t\n\x0b\x0c\r\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'
def trimmed(op, s):
    if s[0] == 'str': return ('str', {'trim': s[1].strip, 'trim_start': s[1].lstrip, 'trim_end': s[1].rstrip}[op](WS))
    if s[0] == 't' and s[1] == 'trim': return s
    if s[0] == 't' and s[1] in ('trim_start', 'trim_end'):
        return s if s[1] == op else ('t', 'trim', s[2])
    return ('t', op, s)
def _trim(op): return lambda I, st, inst, a: [(st, trimmed(op, strv(I, st, a[0])))]
for n in ['trim', 'trim_start', 'trim_end']: M['core::str::<impl str>::' + n] = _trim(n)
for n in ['to_lowercase', 'to_uppercase', 'to_ascii_lowercase']:
    M['core::str::<impl str>::' + n] = _pure(n)
    M['std::str::<impl str>::' + n] = _pure(n)
@model('core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with', 'core::str::<impl str>::contains')
def m_sw(I, st, inst, a):
    if fnpat(I, inst): return None
    s = strv(I, st, a[0]); p = deep(I, st, a[1])
    op = inst.path.split('::')[-1]
    if s[0] == 'str' and p[0] in ('str', 'int'):
        q = p[1] if p[0] == 'str' else chr(p[1])
        return [(st, boolv({'starts_with': s[1].startswith, 'ends_with': s[1].endswith, 'contains': s[1].__contains__}[op](q)))]
    if p[0] == 'int': p = ('str', chr(p[1]))
    return [(st, I.simp(st, ('t', op, s, p)))]
BOOLOPS.update({'starts_with', 'ends_with', 'contains'})
for ty in ['f64', 'f32', 'u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'bool', 'char', 'isize']:
    M['std::clone::impls::<impl std::clone::Clone for %s>::clone' % ty] = lambda I, st, inst, a: [(st, rd(I, st, a[0]))]
    def _mk(op):
        def h(I, st, inst, a): return [(st, I.binop(st, op, rd(I, st, a[0]), rd(I, st, a[1]), None))]
        return h
    for n, op in [('eq', 'Eq'), ('ne', 'Ne')]:
        M['std::cmp::impls::<impl std::cmp::PartialEq for %s>::%s' % (ty, n)] = _mk(op)
    for n, op in [('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')]:
        M['std::cmp::impls::<impl std::cmp::PartialOrd for %s>::%s' % (ty, n)] = _mk(op)
M['std::convert::num::<impl std::convert::From<i32> for f64>::from'] = lambda I, st, inst, a: [(st, a[0] if a[0][0] in ('sym', 't') else ('flt', float(a[0][1])))]

# ---------------------------------------------------------------- operations on known strings
def rng(I, st, v, ty, n):
    """(lo, hi) of a range value over a sequence of length n"""
    name = I.p.types[ty].get('n', '').split('::')[-1]
    v = deep(I, st, v)
    if name == 'RangeFull': return 0, n
    fs = [I.simp(st, x) for x in v[2]] if v[0] == 'adt' else None
    if fs is None or any(x[0] != 'int' for x in fs[:2]): raise Stop('unknown range')
    k = [x[1] for x in fs]
    r = {'Range': lambda: (k[0], k[1]), 'RangeFrom': lambda: (k[0], n), 'RangeTo': lambda: (0, k[0]), 'RangeInclusive': lambda: (k[0], k[1] + 1), 'RangeToInclusive': lambda: (0, k[0] + 1)}.get(name)
    if r is None: raise Stop('range type %s' % name)
    return r()
def bslice(s, lo, hi):
    """s[lo..hi] by bytes; None if out of range or inside a character"""
    b = s.encode()
    if lo > hi or hi > len(b): return None
    try: return b[:lo].decode(), b[lo:hi].decode(), b[hi:].decode()
    except UnicodeDecodeError: return None
def s_drain(I, st, inst, a):
    s = strv(I, st, a[0])
    if s[0] != 'str': raise Stop('drain of an unknown string')
    lo, hi = rng(I, st, a[1], inst.args[-1], len(s[1].encode()))
    r = bslice(s[1], lo, hi)
    if r is None: return [I.panic(st, 'string range out of bounds')]
    wr(I, st, a[0], ('str', r[0] + r[2]))
    return [(st, ('into', ('vec', tuple(('int', ord(c)) for c in r[1]))))]
M['std::string::String::drain'] = s_drain
@model('core::str::traits::<impl std::ops::Index<I> for str>::index', '<std::string::String as std::ops::Index<I>>::index')
def s_index(I, st, inst, a):
    s = strv(I, st, a[0])
    if s[0] != 'str': raise Stop('slice of an unknown string')
    ty = [x for x in inst.args if x is not None and I.p.types[x].get('n', '').split('::')[-1].startswith('Range')]
    if not ty: raise Stop('string index')
    lo, hi = rng(I, st, a[1], ty[0], len(s[1].encode()))
    r = bslice(s[1], lo, hi)
    if r is None: return [I.panic(st, 'string range out of bounds')]
    return [(st, ('str', r[1]))]
@model('std::string::String::pop')
def s_pop(I, st, inst, a):
    s = strv(I, st, a[0])
    if s[0] != 'str': raise Stop('pop of an unknown string')
    if not s[1]: return [(st, NONE)]
    wr(I, st, a[0], ('str', s[1][:-1])); return [(st, some(('int', ord(s[1][-1]))))]
@model('std::string::String::remove')
def s_remove(I, st, inst, a):
    s = strv(I, st, a[0]); k = I.simp(st, a[1])
    if s[0] != 'str' or k[0] != 'int': raise Stop('remove of an unknown string')
    r = bslice(s[1], 0, k[1])
    if r is None or not r[2]: return [I.panic(st, 'string index out of bounds')]
    wr(I, st, a[0], ('str', r[1] + r[2][1:])); return [(st, ('int', ord(r[2][0])))]
@model('std::string::String::truncate')
def s_truncate(I, st, inst, a):
    s = strv(I, st, a[0]); k = I.simp(st, a[1])
    if s[0] != 'str' or k[0] != 'int': raise Stop('truncate of an unknown string')
    if k[1] > len(s[1].encode()): return [(st, UNIT)]
    r = bslice(s[1], 0, k[1])
    if r is None: return [I.panic(st, 'string index out of bounds')]
    wr(I, st, a[0], ('str', r[1])); return [(st, UNIT)]
@model('std::string::String::insert', 'std::string::String::insert_str')
def s_insert(I, st, inst, a):
    s = strv(I, st, a[0]); k = I.simp(st, a[1]); c = strv(I, st, a[2])
    if s[0] != 'str' or k[0] != 'int' or c[0] not in ('int', 'str'): raise Stop('insert into an unknown string')
    r = bslice(s[1], 0, k[1])
    if r is None: return [I.panic(st, 'string index out of bounds')]
    wr(I, st, a[0], ('str', r[1] + (chr(c[1]) if c[0] == 'int' else c[1]) + r[2])); return [(st, UNIT)]
def seqop(fn, name):
    def h(I, st, inst, a):
        s = strv(I, st, a[0])
        if s[0] == 'str': return [(st, ('into', ('vec', tuple(fn(s[1])))))]
        return [(st, ('t', name, s))]
    return h
I_ = lambda n: ('int', n)
def _ci(s):
    r = []; k = 0
    for c in s: r.append(('adt', 0, (I_(k), I_(ord(c))))); k += len(c.encode())
    return r
for n, fn in dict(chars=lambda s: [I_(ord(c)) for c in s], bytes=lambda s: [I_(b) for b in s.encode()], char_indices=_ci,
                  split_whitespace=lambda s: [('str', x) for x in s.translate({ord(c): ' ' for c in WS}).split(' ') if x],
                  split_ascii_whitespace=lambda s: [('str', x) for x in s.translate({ord(c): ' ' for c in '\t\n\x0c\r'}).split(' ') if x],
                  lines=lambda s: [('str', x[:-1] if x.endswith('\r') else x) for x in (s[:-1] if s.endswith('\n') else s).split('\n')] if s else []).items():
    M['core::str::<impl str>::' + n] = seqop(fn, n)
for n in ('Chars', 'Bytes', 'CharIndices', 'SplitWhitespace', 'SplitAsciiWhitespace', 'Lines', 'Split', 'SplitN'):
    for l in ("<'a>", "<'_>", "<'a, P>", ''):
        M['<std::str::%s%s as std::iter::Iterator>::next' % (n, l)] = m_next
        M['<std::str::%s%s as std::iter::DoubleEndedIterator>::next_back' % (n, l)] = m_next_back
        M['<std::str::%s%s as std::clone::Clone>::clone' % (n, l)] = it_clone
for l in ("<'_>", "<'a>", ''):
    M['<std::string::Drain%s as std::iter::Iterator>::next' % l] = m_next
def pattern(I, st, p):
    p = deep(I, st, p)
    if p[0] == 'str': return [p[1]]
    if p[0] == 'int': return [chr(p[1])]
    if p[0] == 'vec' and all(x[0] == 'int' for x in p[1]): return [chr(x[1]) for x in p[1]]
    raise Stop('string pattern')
def fnpat(I, inst):
    """the pattern is a predicate: the body exported for it is a plain loop (harness::m_str_*_f)"""
    return inst.body is not None and any(x is not None and I.p.types[x]['k'] in ('closure', 'fndef', 'fnptr', 'fn') for x in inst.args)
def patop(name, fn):
    def h(I, st, inst, a):
        if fnpat(I, inst): return None
        s = strv(I, st, a[0])
        if s[0] != 'str': return [(st, ('t', name, s) + tuple(strv(I, st, x) for x in a[1:]))]
        return [(st, fn(s[1], pattern(I, st, a[1]), *[strv(I, st, x) for x in a[2:]]))]
    return h
def _tm(s, ps, l=True, r=True):
    ch = True
    while ch and s:
        ch = False
        for q in ps:
            if l and q and s.startswith(q): s = s[len(q):]; ch = True
            if r and q and s.endswith(q): s = s[:-len(q)]; ch = True
    return ('str', s)
def _repl(s, ps, w):
    if w[0] != 'str': raise Stop('replace with an unknown string')
    if len(ps) == 1: return ('str', s.replace(ps[0], w[1]))
    return ('str', ''.join(w[1] if c in ps else c for c in s))
def _split(s, ps):
    if len(ps) != 1:
        for q in ps[1:]: s = s.replace(q, ps[0])
    return ('into', ('vec', tuple(('str', x) for x in s.split(ps[0]))))
def _find(s, ps, r=False):
    k = [x for x in ((s.rfind(q) if r else s.find(q)) for q in ps) if x >= 0]
    return some(('int', len(s[:(max if r else min)(k)].encode()))) if k else NONE
for n, fn in dict(trim_matches=_tm, trim_start_matches=lambda s, p: _tm(s, p, r=False), trim_end_matches=lambda s, p: _tm(s, p, l=False), trim_left_matches=lambda s, p: _tm(s, p, r=False), trim_right_matches=lambda s, p: _tm(s, p, l=False),
                  replace=_repl, split=_split, find=_find, rfind=lambda s, p: _find(s, p, True),
                  strip_prefix=lambda s, p: some(('str', s[len(p[0]):])) if s.startswith(p[0]) else NONE, strip_suffix=lambda s, p: some(('str', s[:len(s) - len(p[0])])) if s.endswith(p[0]) else NONE).items():
    M['core::str::<impl str>::' + n] = patop(n, fn); M['std::str::<impl str>::' + n] = patop(n, fn)
# trimming an unknown string with a predicate: the predicate is evaluated on every ASCII and every White_Space character (and a few others); the set it accepts decides what is trimmed
TRIMSET = ''.join(map(chr, range(128))) + ''.join(c for c in WS if ord(c) > 127) + '\xe9\u200b\u2060\ufeff\U0001f600'
TRIMOPS = {'trim_matches': 'trim', 'trim_start_matches': 'trim_start', 'trim_left_matches': 'trim_start', 'trim_end_matches': 'trim_end', 'trim_right_matches': 'trim_end'}
def trimset(op, s, chars):
    if s[0] == 'str': return ('str', {'trim': s[1].strip, 'trim_start': s[1].lstrip, 'trim_end': s[1].rstrip}[op](chars)) if chars else s
    if not chars: return s
    if set(chars) == set(WS): return trimmed(op, s)
    return ('t', op + '_of', s, ('str', ''.join(sorted(chars))))
def trimset_step(I, st, s, op, f, k, acc, ty):
    if k == len(TRIMSET): return [(st, trimset(op, s, acc))]
    return [call_closure(I, st, ty, f, [I_(ord(TRIMSET[k]))], ('trimset', s, op, f, k, acc, ty))]
@cont('trimset')
def c_trimset(I, st, fr, v):
    _, s, op, f, k, acc, ty = fr.cont
    b = I.simp(st, v)
    if b[0] != 'int': raise Stop('class of an unknown character')
    ph = st.frames.pop()
    return resume(I, ph, trimset_step(I, st, s, op, f, k + 1, acc + (TRIMSET[k] if b[1] else ''), ty))
def trim_pred(name):
    old = M['core::str::<impl str>::' + name]; op = TRIMOPS[name]
    def h(I, st, inst, a):
        s = strv(I, st, a[0])
        if s[0] == 'str': return old(I, st, inst, a)
        if not fnpat(I, inst):
            p = deep(I, st, a[1])
            if p[0] == 'int' or p[0] == 'vec' and all(x[0] == 'int' for x in p[1]): return [(st, trimset(op, s, ''.join(pattern(I, st, p))))]
            return old(I, st, inst, a)
        ty = next(x for x in inst.args if x is not None and I.p.types[x]['k'] in ('closure', 'fndef', 'fnptr', 'fn'))
        f = a[1]
        if f[0] != 'ref': o = st.fresh(); st.heap[o] = {'val': f}; f = ('ref', ('H', o), ())
        if closure_inst(I, ty)[1] == 'fn': f = a[1]
        return trimset_step(I, st, s, op, f, 0, '', ty)
    return h
for n in TRIMOPS:
    h = trim_pred(n); M['core::str::<impl str>::' + n] = h; M['std::str::<impl str>::' + n] = h
for n, op in (('trim_left', 'trim_start'), ('trim_right', 'trim_end')): M['core::str::<impl str>::' + n] = _trim(op)
def m_is_ws(I, st, inst, a):
    c = deep(I, st, a[0])
    if c[0] != 'int': raise Stop('class of an unknown character')
    n = inst.path.split('::')[-1]
    return [(st, boolv(chr(c[1]) in (WS if n == 'is_whitespace' else ' \t\n\x0c\r')))]
for n in ('is_whitespace', 'is_ascii_whitespace'):
    for k in ('char', 'u8'):
        for pre in ('core::%s::methods::<impl %s>::' % (k, k), 'core::num::<impl %s>::' % k, 'std::%s::methods::<impl %s>::' % (k, k)): M[pre + n] = m_is_ws

# ---------------------------------------------------------------- logging is switched off (it has no effect on the DOM)
M['log::max_level'] = lambda I, st, inst, a: [(st, adt(0))]
M['log::__private_api::log'] = lambda I, st, inst, a: [(st, UNIT)]
M['log::__private_api::loc'] = lambda I, st, inst, a: [(st, UNIT)]
M['std::cmp::PartialOrd::le'] = None
del M['std::cmp::PartialOrd::le']
@model('<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::partial_cmp', '<log::Level as std::cmp::PartialOrd<log::LevelFilter>>::le')
def lvl(I, st, inst, a):
    return [(st, FALSE)] if inst.path.endswith('::le') else [(st, some(adt(2)))]
def level_le(I, st, inst, a): return [(st, FALSE)]

# ---------------------------------------------------------------- fmt
# Formatting builds a string value piece by piece.  A `Formatter` is a heap cell that holds the text so far;
# Display/Debug implementations of the analysed crate are interpreted, foreign ones give opaque terms.
def peel(I, st, r):
    """the innermost reference of a chain of references"""
    n = 4
    while r[0] == 'ref' and n:
        v = rd(I, st, r)
        if v[0] == 'guard': v = v[3]
        if v[0] != 'ref': return r
        r = v; n -= 1
    return r
def fmt_inst(I, inst):
    if inst.fmt is None: return None
    f = I.p.insts[inst.fmt]
    return inst.fmt if f.body is not None and f.crate in ('svgdom', 'harness', 'svgtypes') else None
def disp_value(I, t, v):
    """text of a value shown with {} if that is immediate"""
    while t['k'] == 'ref': t = I.p.types[t['e']]
    if t['k'] == 'str' or (t['k'] == 'adt' and t['n'].endswith('string::String')): return v
    if t['k'] == 'adt' and t['n'].split('::')[-1] in ('Ref', 'RefMut', 'Box', 'Rc', 'Arc', 'Cow'):
        inner = [x for x in t.get('a', ()) if isinstance(x, int)]
        if inner: return disp_value(I, I.p.types[inner[0]], v)
        raise Stop('text of a %s' % t['n'])
    if t['k'] == 'char': return ('str', chr(v[1])) if v[0] == 'int' else ('t', 'char', v)
    if t['k'] in ('int', 'uint'): return ('str', str(v[1])) if v[0] == 'int' else ('t', 'display', v)
    if v[0] not in ('t', 'sym'): raise Stop('text of a %s' % t.get('n', t['k']))
    return ('t', 'display', v)
@model("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_lower_hex", "core::fmt::rt::Argument::<'_>::new_upper_hex")
def fmt_arg(I, st, inst, a):
    k = inst.path.rsplit('new_', 1)[1]
    f = fmt_inst(I, inst)
    if f is not None: return [(st, ('t', 'arg', 'call', ('int', f), peel(I, st, a[0])))]
    t = I.p.types[inst.args[0]]
    x = guarded(I, st, strv(I, st, a[0]))
    while t['k'] == 'ref': t = I.p.types[t['e']]
    if t['k'] == 'adt' and t['n'].split('::')[-1] in ('Ref', 'RefMut') and k == 'display':
        inner = I.p.types[t['a'][0]] if isinstance(t['a'][0], int) else None
        if inner is not None: return [(st, ('t', 'arg', 'text', disp_value(I, inner, x)))]
    if k == 'display': return [(st, ('t', 'arg', 'text', disp_value(I, t, x)))]
    if k in ('lower_hex', 'upper_hex'):
        x = I.simp(st, x)
        if x[0] == 'int' and x[1] >= 0: return [(st, ('t', 'arg', 'text', ('str', format(x[1], 'x' if k == 'lower_hex' else 'X'))))]
    return [(st, ('t', 'arg', 'text', ('t', k, x)))]
def guarded(I, st, v):
    """contents behind a RefCell guard"""
    n = 3
    while v[0] == 'guard' and n:
        v = strv(I, st, v[3]); n -= 1
    return v
@model("std::fmt::Arguments::<'a>::new")
def fmt_new(I, st, inst, a):
    tpl = deep(I, st, a[0]); args = deep(I, st, a[1])
    return [(st, ('t', 'fmt', tpl, args))]
@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::new_const")
def fmt_from_str(I, st, inst, a): return [(st, ('t', 'fmt', a[0], ('vec', ())))]
def fmt_pieces(I, st, f):
    """pieces of format arguments: text values and ('call', inst, ref)"""
    f = deep(I, st, f)
    if f[0] != 't' or f[1] != 'fmt': return [('t', 'format', f)]
    tpl, args = f[2], f[3]
    if tpl[0] == 'str': return [tpl]
    if tpl[0] == 'vec' and all(x[0] == 'int' for x in tpl[1]) and args[0] == 'vec':
        r = decode_template(bytes(x[1] for x in tpl[1]), list(args[1]))
        if r is not None: return r
    return [('t', 'format', tpl, args)]
def arg_piece(x):
    if x[0] == 't' and x[1] == 'arg':
        return x[3] if x[2] == 'text' else ('call', x[3][1], x[4])
    return ('t', 'fmtarg', x)
def decode_template(b, args):
    """compact fmt template: <len><bytes> literals (1..0x7f), 0x80 long literal, 0xC0|flags placeholder, 0 end"""
    out = []; i = 0; n = 0
    while i < len(b):
        c = b[i]; i += 1
        if c == 0: return out
        if c < 0x80:
            out.append(('str', b[i:i + c].decode())); i += c
        elif c == 0x80:
            l = b[i] | b[i + 1] << 8; i += 2
            out.append(('str', b[i:i + l].decode())); i += l
        else:
            opts = c & 0x3f
            spec = {}
            if opts & 1: spec['flags'] = int.from_bytes(b[i:i + 4], 'little'); i += 4
            if opts & 2: spec['width'] = int.from_bytes(b[i:i + 2], 'little'); i += 2
            if opts & 4: spec['prec'] = int.from_bytes(b[i:i + 2], 'little'); i += 2
            if opts & 8: n = int.from_bytes(b[i:i + 2], 'little'); i += 2
            if opts & 0x30: return None
            if n >= len(args): return None
            x = arg_piece(args[n]); n += 1
            if 'flags' in spec or 'width' in spec or 'prec' in spec:
                if x[0] == 'call': return None
                x = ('t', 'padded', ('str', repr(sorted(spec.items()))), x)
            out.append(x)
    return None
def fmt_go(I, st, pieces, sink, cell=None):
    """append the pieces to the formatter cell; then hand the text to the sink"""
    if cell is None:
        if not any(x[0] == 'call' for x in pieces): return fmt_end(I, st, sink, concat(*pieces) if pieces else ('str', ''), None)
        o = st.fresh(); st.heap[o] = {'val': ('str', '')}; cell = ('ref', ('H', o), ())
    pieces = list(pieces)
    while pieces:
        x = pieces.pop(0)
        if x[0] != 'call':
            wr(I, st, cell, concat(rd(I, st, cell), x)); continue
        return [('call', st, I.p.insts[x[1]], [x[2], cell], ('fmt', ('vec', tuple(adt(0, ('int', p[1]), p[2]) if p[0] == 'call' else adt(1, p) for p in pieces)), sink, cell))]
    return fmt_end(I, st, sink, rd(I, st, cell), cell)
def fmt_end(I, st, sink, text, cell):
    k = sink[0]
    if k == 'sk_text': return [(st, text)]
    if k == 'sk_event':
        st.ev = st.ev + ((sink[1][1],) + tuple(sink[2:]) + (text,),); return [(st, UNIT)]
    if k == 'sk_fmtr': 
        if cell is None: wr(I, st, sink[1], concat(rd(I, st, sink[1]), text))
        return [(st, ok(UNIT))]
    if k == 'sk_bytes':
        p = vecptr(I, st, sink[1]); v = vecval(I, st, p)
        wr(I, st, p, ('vec', v[1] + (('chunk', text),))); return [(st, ok(UNIT))]
    if k == 'sk_str':
        wr(I, st, sink[1], concat(strv(I, st, sink[1]), text)); return [(st, ok(UNIT))]
    raise Stop('fmt sink')
@cont('fmt')
def c_fmt(I, st, fr, v):
    _, ps, sink, cell = fr.cont
    r = I.simp(st, v)
    if not (r[0] == 'adt' and r[1] == 0): return finish(I, st, err(UNIT)) if sink[0] != 'sk_text' else [I.panic(st, 'formatting failed')]
    pieces = [('call', p[2][0][1], p[2][1]) if p[1] == 0 else p[2][0] for p in ps[1]]
    out = []
    for x in fmt_go(I, st, pieces, sink, cell):
        if isinstance(x, Outcome): out.append(x)
        elif x[0] == 'call': out.extend(I.invoke(x[1], x[2], x[3], None, None, x[4]))
        else: out.extend(finish(I, x[0], x[1]))
    return out
@model('std::fmt::format')
def fmt_format(I, st, inst, a): return fmt_go(I, st, fmt_pieces(I, st, a[0]), ('sk_text',))
@model("std::fmt::Formatter::<'a>::write_fmt")
def fmt_wfmt(I, st, inst, a):
    c = peel(I, st, a[0])
    return fmt_go(I, st, fmt_pieces(I, st, a[1]), ('sk_fmtr', c), c)
@model("std::fmt::Formatter::<'a>::write_str", "std::fmt::Formatter::<'a>::pad", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str")
def fmt_wstr(I, st, inst, a):
    c = peel(I, st, a[0])
    wr(I, st, c, concat(rd(I, st, c), strv(I, st, a[1]))); return [(st, ok(UNIT))]
@model("<std::fmt::Formatter<'_> as std::fmt::Write>::write_char")
def fmt_wchar(I, st, inst, a):
    c = peel(I, st, a[0]); x = I.simp(st, a[1])
    wr(I, st, c, concat(rd(I, st, c), ('str', chr(x[1])) if x[0] == 'int' else ('t', 'char', x))); return [(st, ok(UNIT))]
@model('std::io::Write::write_fmt', 'std::fmt::Write::write_fmt', '<std::string::String as std::fmt::Write>::write_fmt')
def io_wfmt(I, st, inst, a):
    t = I.p.types[inst.args[0]]
    n = t.get('n', '').split('::')[-1]
    if n == 'Vec': return fmt_go(I, st, fmt_pieces(I, st, a[1]), ('sk_bytes', peel(I, st, a[0])))
    if n == 'String': return fmt_go(I, st, fmt_pieces(I, st, a[1]), ('sk_str', peel(I, st, a[0])))
    if n == 'Formatter': return fmt_wfmt(I, st, inst, a)
    return None
@model('<std::vec::Vec<u8, A> as std::io::Write>::write_all', '<std::vec::Vec<u8> as std::io::Write>::write_all', 'std::io::impls::<impl std::io::Write for std::vec::Vec<u8, A>>::write_all')
def io_write_all(I, st, inst, a):
    vec_efs(I, st, inst, a); return [(st, ok(UNIT))]
@model('<std::string::String as std::fmt::Write>::write_str')
def str_wstr(I, st, inst, a):
    wr(I, st, a[0], concat(strv(I, st, a[0]), strv(I, st, a[1]))); return [(st, ok(UNIT))]
@model('<std::string::String as std::fmt::Write>::write_char')
def str_wchar(I, st, inst, a):
    m_push(I, st, inst, a); return [(st, ok(UNIT))]
@model('<T as std::string::ToString>::to_string')
def m_to_string(I, st, inst, a):
    f = fmt_inst(I, inst)
    if f is not None: return fmt_go(I, st, [('call', f, peel(I, st, a[0]))], ('sk_text',))
    t = I.p.types[inst.args[0]]
    return [(st, disp_value(I, t, guarded(I, st, strv(I, st, a[0]))))]
def bytes_text(v):
    """text of a byte vector made of known bytes and chunks of text; None if it is anything else"""
    if v[0] == 'str': return v
    if v[0] == 't' and v[1] == 'bytes': return v[2]
    if v[0] != 'vec': return None
    out = []; cur = bytearray()
    def flush():
        if cur: out.append(('str', cur.decode())); cur.clear()
    try:
        for x in v[1]:
            if x[0] == 'int': cur.append(x[1])
            elif x[0] == 'chunk': flush(); t = bytes_text(x[1]); out.append(t if t is not None else x[1])
            else: return None
        flush()
    except (UnicodeDecodeError, ValueError): return None
    return concat(*out) if out else ('str', '')
@model('std::str::from_utf8', 'std::string::String::from_utf8', 'core::str::converts::from_utf8')
def m_from_utf8(I, st, inst, a):
    t = bytes_text(deep(I, st, a[0]))
    if t is None: raise Stop('from_utf8 of unknown bytes')
    return [(st, ok(t))]
@model('std::string::String::from_utf8_lossy', 'std::string::String::from_utf8_unchecked', 'std::str::from_utf8_unchecked')
def m_from_utf8u(I, st, inst, a):
    t = bytes_text(deep(I, st, a[0]))
    if t is None: raise Stop('from_utf8 of unknown bytes')
    return [(st, ok(t) if inst.path.endswith('lossy') else t)]

def lookup(extra=None):
    """model resolver: exact path, then a few families"""
    def f(inst):
        if extra is not None:
            h = extra(inst)
            if h is not None: return h
        h = M.get(inst.path)
        if h is not None: return h
        if inst.intr is not None:
            return INTR.get(inst.intr, unk_intr)
        if inst.path == 'std::cmp::PartialOrd::le' and 'log::Level' in inst.name: return level_le
        if inst.path.startswith('core::panicking::') : return m_panic
        if inst.crate in ('svgtypes', 'roxmltree', 'simplecss') and inst.path.endswith('std::clone::Clone>::clone'): return ext_clone
        if inst.crate in ('svgtypes', 'xmlwriter', 'simplecss') and inst.body is None and inst.path.endswith(('std::cmp::PartialEq>::eq', 'std::cmp::PartialEq>::ne')): return ext_eq
        if inst.crate == 'siphasher':
            for k, h in SIP.items():
                if inst.path.endswith(k): return h
        if inst.path.endswith('::precondition_check'): return noop
        if inst.path.endswith(('::eq', '::ne')) and 'PartialEq' in inst.path and len(inst.ins) == 2 and inst.crate in ('core', 'alloc', 'std'): return any_eq
        if inst.path.endswith('as std::iter::Iterator>::size_hint') and inst.path.startswith(('<std::slice::', '<std::vec::', '<std::str::', '<std::string::', '<std::array::')): return size_hint
        if inst.path.endswith('as std::iter::ExactSizeIterator>::len') and inst.path.startswith(('<std::slice::', '<std::vec::', '<std::array::')): return it_len
        return None
    return f
INTR = {}
def unk_intr(I, st, inst, a): raise Stop('intrinsic %s' % inst.intr)
def intr(*n):
    def d(f):
        for x in n: INTR[x] = f
        return f
    return d
@intr('discriminant_value')
def i_discr(I, st, inst, a):
    v = rd(I, st, a[0])
    ty = inst.args[0]
    if v[0] == 'adt': return [(st, ('int', I.discr_of(ty, v[1])))]
    return [(st, I.simp(st, ('t', 'discr', v, ty)))]
@intr('ub_checks', 'overflow_checks', 'contract_checks')
def i_false(I, st, inst, a): return [(st, FALSE)]
@intr('assume', 'assert_inhabited', 'assert_zero_valid', 'cold_path')
def i_unit(I, st, inst, a): return [(st, UNIT)]
@intr('likely', 'unlikely', 'black_box', 'transmute')
def i_id(I, st, inst, a): return [(st, a[0])]
@intr('integer_min', 'integer_max', 'three_way_compare')
def i_minmax(I, st, inst, a):
    x, y = (I.simp(st, deep(I, st, v)) for v in a)
    ty = inst.args[0]
    if inst.intr == 'three_way_compare': return [(st, I.binop(st, 'Cmp', x, y, ty))]
    b = I.simp(st, I.binop(st, 'Lt', y, x, ty))
    out = []
    for want in (1, 0):
        if b[0] == 'int' and b[1] != want: continue
        s2 = st.copy()
        if b[0] != 'int' and not I.assume(s2, b, want): continue
        out.append((s2, (y if want else x) if inst.intr == 'integer_min' else (x if want else y)))
    return out
@intr('needs_drop')
def i_nd(I, st, inst, a): return [(st, TRUE)]
@intr('abort', 'unreachable')
def i_abort(I, st, inst, a): return []
@intr('read_via_copy')
def i_rvc(I, st, inst, a): return [(st, rd(I, st, a[0]))]
@intr('write_via_move')
def i_wvm(I, st, inst, a): wr(I, st, a[0], a[1]); return [(st, UNIT)]

def ext_clone(I, st, inst, a): return [(st, rd(I, st, a[0]))]

# ---------------------------------------------------------------- SipHash-1-3 (perfect-hash tables): constant folding
def siphash13(k0, k1, data):
    Mk = (1 << 64) - 1
    v = [k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573]
    rot = lambda x, b: ((x << b) | (x >> (64 - b))) & Mk
    def rnd():
        v[0] = (v[0] + v[1]) & Mk; v[1] = rot(v[1], 13); v[1] ^= v[0]; v[0] = rot(v[0], 32)
        v[2] = (v[2] + v[3]) & Mk; v[3] = rot(v[3], 16); v[3] ^= v[2]
        v[0] = (v[0] + v[3]) & Mk; v[3] = rot(v[3], 21); v[3] ^= v[0]
        v[2] = (v[2] + v[1]) & Mk; v[1] = rot(v[1], 17); v[1] ^= v[2]; v[2] = rot(v[2], 32)
    n = len(data)
    for i in range(0, n - n % 8, 8):
        m = int.from_bytes(data[i:i + 8], 'little'); v[3] ^= m; rnd(); v[0] ^= m
    b = (n & 0xff) << 56 | int.from_bytes(data[n - n % 8:], 'little')
    v[3] ^= b; rnd(); v[0] ^= b
    v[2] ^= 0xff
    rnd(); rnd(); rnd()
    return v[0] ^ v[1] ^ v[2] ^ v[3]
def sip_new(I, st, inst, a): return [(st, ('t', 'sip', a[0], a[1], ('str', '')))]
def sip_write(I, st, inst, a):
    h = rd(I, st, a[0]); x = a[1]
    if x[0] == 't' and x[1] == 'bytes': x = x[2]
    elif x[0] == 'ref':
        x = deep(I, st, x)
        if x[0] == 'vec' and all(y[0] == 'int' for y in x[1]): x = ('str', bytes(y[1] for y in x[1]).decode('latin1'))
    if h[0] != 't' or h[1] != 'sip': raise Stop('SipHasher')
    wr(I, st, a[0], h[:4] + (concat(h[4], x),)); return [(st, UNIT)]
def sip_finish(I, st, inst, a):
    h = rd(I, st, a[0])
    if h[0] == 't' and h[1] == 'sip' and h[2][0] == 'int' and h[3][0] == 'int' and h[4][0] == 'str':
        return [(st, ('int', siphash13(h[2][1], h[3][1], h[4][1].encode())))]
    return [(st, ('t', 'siphash', h))]
SIP = {'SipHasher13::new_with_keys': sip_new, 'Hasher>::write': sip_write, 'Hasher>::finish': sip_finish}

# ---------------------------------------------------------------- slab: a list of (key, value) pairs
def slab_find(I, st, v, key):
    key = I.simp(st, key)
    for k, e in enumerate(v[1]):
        if e[0] != 'adt': raise Stop('slab contents')
        if e[2][0] == key: return k
    if key[0] != 'int': raise Stop('slab key unknown')
    return None
@model('slab::Slab::<T>::new', 'slab::Slab::<T>::with_capacity', '<slab::Slab<T> as std::default::Default>::default')
def slab_new(I, st, inst, a): return [(st, ('vec', ()))]
@model('slab::Slab::<T>::insert')
def slab_insert(I, st, inst, a):
    v = vecval(I, st, a[0]); n = st.ghost.get('slabkey', 1000); st.ghost['slabkey'] = n + 1
    wr(I, st, a[0], ('vec', v[1] + (adt(0, ('int', n), a[1]),))); return [(st, ('int', n))]
@model('slab::Slab::<T>::remove', 'slab::Slab::<T>::try_remove')
def slab_remove(I, st, inst, a):
    v = vecval(I, st, a[0]); k = slab_find(I, st, v, a[1]); t = inst.path.endswith('try_remove')
    if k is None: return [(st, NONE)] if t else [I.panic(st, 'slab: invalid key')]
    wr(I, st, a[0], ('vec', v[1][:k] + v[1][k + 1:]))
    return [(st, some(v[1][k][2][1]) if t else v[1][k][2][1])]
@model('slab::Slab::<T>::contains')
def slab_contains(I, st, inst, a): return [(st, boolv(slab_find(I, st, vecval(I, st, a[0]), a[1]) is not None))]
@model('slab::Slab::<T>::get', 'slab::Slab::<T>::get_mut')
def slab_get(I, st, inst, a):
    v = vecval(I, st, a[0]); k = slab_find(I, st, v, a[1])
    if k is None: return [(st, NONE)]
    loc, proj = I.deref_ptr(st, a[0])
    return [(st, some(('ref', loc, proj + (('e', k), ('f', 1, None, 0)))))]
@model('slab::Slab::<T>::len')
def slab_len(I, st, inst, a): return [(st, ('int', len(vecval(I, st, a[0])[1])))]
@model('slab::Slab::<T>::is_empty')
def slab_is_empty(I, st, inst, a): return [(st, boolv(not vecval(I, st, a[0])[1]))]
@model('slab::Slab::<T>::clear')
def slab_clear(I, st, inst, a): wr(I, st, a[0], ('vec', ())); return [(st, UNIT)]
@model('slab::Slab::<T>::iter', 'slab::Slab::<T>::iter_mut', "<&'a slab::Slab<T> as std::iter::IntoIterator>::into_iter", "<&'a mut slab::Slab<T> as std::iter::IntoIterator>::into_iter")
def slab_iter(I, st, inst, a): return [(st, ('slabit', a[0], 0))]
@model("<slab::Iter<'a, T> as std::iter::Iterator>::next", "<slab::IterMut<'a, T> as std::iter::Iterator>::next")
def slab_next(I, st, inst, a):
    it = rd(I, st, a[0]); v = vecval(I, st, it[1])
    if it[2] >= len(v[1]): return [(st, NONE)]
    loc, proj = I.deref_ptr(st, it[1])
    wr(I, st, a[0], ('slabit', it[1], it[2] + 1))
    return [(st, some(adt(0, v[1][it[2]][2][0], ('ref', loc, proj + (('e', it[2]), ('f', 1, None, 0))))))]

@model('<slab::Slab<T> as std::ops::Index<usize>>::index', '<slab::Slab<T> as std::ops::IndexMut<usize>>::index_mut')
def slab_index(I, st, inst, a):
    v = vecval(I, st, a[0]); k = slab_find(I, st, v, a[1])
    if k is None: return [I.panic(st, 'slab: invalid key')]
    loc, proj = I.deref_ptr(st, a[0])
    return [(st, ('ref', loc, proj + (('e', k), ('f', 1, None, 0))))]
@model('slab::Slab::<T>::drain')
def slab_drain(I, st, inst, a):
    v = vecval(I, st, a[0]); wr(I, st, a[0], ('vec', ()))
    return [(st, ('slabdrain', v, 0))]
@model("<slab::Drain<'a, T> as std::iter::Iterator>::next", "<slab::Drain<'_, T> as std::iter::Iterator>::next", "<slab::IntoIter<T> as std::iter::Iterator>::next")
def slab_drain_next(I, st, inst, a):
    it = deep(I, st, a[0])
    if it[0] != 'slabdrain': raise Stop('slab drain')
    if it[2] >= len(it[1][1]): return [(st, NONE)]
    wr(I, st, a[0], ('slabdrain', it[1], it[2] + 1))
    e = it[1][1][it[2]]
    if e[0] != 'adt': raise Stop('slab contents')
    return [(st, some(adt(0, e[2][0], e[2][1]) if 'IntoIter' in inst.path else e[2][1]))]
@model('<slab::Slab<T> as std::iter::IntoIterator>::into_iter')
def slab_into(I, st, inst, a): return [(st, ('slabdrain', vecval(I, st, a[0]) if a[0][0] != 'vec' else a[0], 0))]
@model('slab::Slab::<T>::vacant_entry')
def slab_vacant(I, st, inst, a):
    n = st.ghost.get('slabkey', 1000); st.ghost['slabkey'] = n + 1
    return [(st, ('adt', 0, (a[0], ('int', n))))]
@model("slab::VacantEntry::<'a, T>::key")
def slab_vkey(I, st, inst, a): return [(st, deep(I, st, a[0])[2][1])]
@model("slab::VacantEntry::<'a, T>::insert")
def slab_vinsert(I, st, inst, a):
    p, n = a[0][2]; v = vecval(I, st, p)
    wr(I, st, p, ('vec', v[1] + (adt(0, n, a[1]),)))
    loc, proj = I.deref_ptr(st, p)
    return [(st, ('ref', loc, proj + (('e', len(v[1])), ('f', 1, None, 0))))]

# ---------------------------------------------------------------- maps and sets: association lists (see harness::m_map_*, m_set_*)
for c_ in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
    for g in ('<K, V>', '<K, V, S>', '<K, V, A>', '<K, V, S, A>', '<T>', '<T, S>', '<T, A>', '<T, S, A>', '<K, V, std::hash::RandomState>', '<T, std::hash::RandomState>'):
        b = 'std::collections::%s::%s::' % (c_, g)
        for n in ('new', 'with_capacity', 'new_in'): M[b + n] = vec_new
        M['<std::collections::%s%s as std::default::Default>::default' % (c_, g)] = vec_new
        M[b + 'len'] = vec_len; M[b + 'is_empty'] = vec_is_empty; M[b + 'clear'] = vec_clear; M[b + 'reserve'] = noop

# ---------------------------------------------------------------- joining strings
def str_items(I, st, p):
    v = vecval(I, st, p)
    if any(x[0] == 'seg' for x in v[1]): raise Stop('concat of an unknown list')
    xs = [strv(I, st, x) for x in v[1]]
    if any(x[0] not in ('str', 't', 'sym') for x in xs): raise Stop('concat')
    return xs
@model('std::slice::<impl [T]>::concat')
def sl_concat(I, st, inst, a):
    if not any(x is not None and I.p.types[x]['k'] == 'str' for x in inst.args): raise Stop('concat of slices')
    return [(st, concat(*str_items(I, st, a[0])))]
@model('std::slice::<impl [T]>::join')
def sl_join(I, st, inst, a):
    if not all(x is None or I.p.types[x]['k'] == 'str' or I.p.types[x].get('n') == 'std::string::String' or (I.p.types[x]['k'] == 'ref' and I.p.types[I.p.types[x]['e']]['k'] == 'str') for x in inst.args): raise Stop('join of slices')
    xs = str_items(I, st, a[0]); sep = strv(I, st, a[1]); out = []
    for k, x in enumerate(xs): out += ([sep] if k else []) + [x]
    return [(st, concat(*out))]
@model('<std::string::String as std::ops::Add<&str>>::add')
def str_add(I, st, inst, a): return [(st, concat(strv(I, st, a[0]), strv(I, st, a[1])))]
@model('<std::string::String as std::ops::AddAssign<&str>>::add_assign')
def str_adda(I, st, inst, a): wr(I, st, a[0], concat(strv(I, st, a[0]), strv(I, st, a[1]))); return [(st, UNIT)]
@model('std::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def sl_split(I, st, inst, a):
    p = vecptr(I, st, a[0]); v = vecval(I, st, p)
    if any(x[0] == 'seg' for x in v[1]): raise Stop('split of an unknown list')
    if not v[1]: return [(st, NONE)]
    k = 0 if inst.path.endswith('first') else len(v[1]) - 1
    rest = v[1][1:] if k == 0 else v[1][:-1]
    return [(s, some(adt(0, q, ('ref', ('C', ('vec', rest)), ())))) for s, q in item_ptr(I, st, p, v, k)]
@model('core::slice::<impl [T]>::windows')
def sl_windows(I, st, inst, a):
    v = vecval(I, st, a[0]); n = I.simp(st, a[1])
    if n[0] != 'int' or any(x[0] == 'seg' for x in v[1]): raise Stop('windows of an unknown list')
    return [(st, ('into', ('vec', tuple(('ref', ('C', ('vec', v[1][k:k + n[1]])), ()) for k in range(len(v[1]) - n[1] + 1)))))]
for q in ("<std::slice::Windows<'a, T> as std::iter::Iterator>::next",): M[q] = m_next

# ---------------------------------------------------------------- floats
def _fmm(op):
    def h(I, st, inst, a):
        x, y = I.simp(st, a[0]), I.simp(st, a[1])
        if x[0] == 'flt' and y[0] == 'flt': return [(st, ('flt', (min if op == 'fmin' else max)(x[1], y[1])))]
        return [(st, ('t', op, x, y))]
    return h
for q in ('core::f64::<impl f64>::', 'std::f64::<impl f64>::'):
    M[q + 'min'] = _fmm('fmin'); M[q + 'max'] = _fmm('fmax')
    M[q + 'clamp'] = lambda I, st, inst, a: [(st, ('t', 'fmin', ('t', 'fmax', a[0], a[1]), a[2]))]
