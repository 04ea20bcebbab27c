"""Serialization: what Document::to_string* hands to the XML writer (C15) and how values are written (C16).
The writer code of the analysed crate is interpreted over abstract documents; calls of the xmlwriter API are
recorded as events, svgtypes serializers give opaque text `ser(value, options)`."""
import itertools, json, os
from interp import *
import models, par
from models import deep, strv, concat, bytes_text, fmt_go, fmt_pieces, fmt_inst, peel, disp_value, guarded
from dommode import Dom, DOC, mref
from dom import handle, unhandle, ref
from common import VERIF
from parser_checks import short
from dom_checks import trees, inner, tree_text

class Env:
    def __init__(self, p):
        self.p = p; self.D = Dom(p); self.L = self.D.L
        t = json.load(open(os.path.join(VERIF, 'spec', 'tables.json')))
        self.tables = t
        self.wopt_ty = p.adt('WriteOptions', 'svgdom')[0]
        self.wopt = [n for n, _ in p.types[self.wopt_ty]['v'][0]['f']]
        self.xopt_ty = (p.adt('Options', 'xmlwriter') or [None])[0]
        self.xopt = [n for n, _ in p.types[self.xopt_ty]['v'][0]['f']] if self.xopt_ty is not None else None
        self.aid_order = [v['n'] for v in p.types[self.L.aid_ty]['v']]
        self.eid_order = [v['n'] for v in p.types[self.L.eid_ty]['v']]
        self.fb_ty = (p.adt('PaintFallback', 'svgtypes') or p.adt('PaintFallback') or [None])[0]
        self.fb = {v['n']: i for i, v in enumerate(p.types[self.fb_ty]['v'])} if self.fb_ty is not None else {}
    def extra(self, inst):
        p = inst.path
        if p.startswith('xmlwriter::XmlWriter::'):
            return XW.get(p.split('::')[-1])
        if p.endswith('::m_attr_bytes') or p == 'm_attr_bytes': return x_attr_bytes
        if inst.crate == 'svgtypes' and (p.endswith('::write_buf_opt') or p.endswith('::write_buf')): return ser
        return None
    def interp(self):
        return self.D.interp(dict(max_steps=3000000, sig_after=400, vec_cap=4000), self.extra)

def ser(I, st, inst, a):
    v = deep(I, st, a[0])
    if v[0] == 't' and ((v[1] == 'call' and v[2].endswith('Deref>::deref') and len(v) == 4) or (v[1] == '.' and v[3:] == (0, 0))):     # the list inside a list type
        v = v[3] if v[1] == 'call' else v[2]
    if inst.path.endswith('_opt'): o = deep(I, st, a[1]); b = a[2]
    else: o = ('t', 'default-options'); b = a[1]
    p = models.vecptr(I, st, b); w = models.vecval(I, st, p)
    models.wr(I, st, p, ('vec', w[1] + (('chunk', ('t', 'ser', v, o)),)))
    return [(st, UNIT)]
def ev(st, *e): st.ev = st.ev + (e,); return [(st, UNIT)]
def x_attr_bytes(I, st, inst, a):
    t = bytes_text(deep(I, st, a[2]))
    if t is None: raise Stop('attribute bytes')
    return ev(st, 'attr', strv(I, st, a[1]), t)
def x_attribute(I, st, inst, a):
    nm = strv(I, st, a[1]); f = fmt_inst(I, inst)
    if f is not None: return fmt_go(I, st, [('call', f, peel(I, st, a[2]))], ('sk_event', ('str', 'attr'), nm))
    t = I.p.types[inst.args[-1] if isinstance(inst.args[-1], int) else inst.args[0]]
    x = guarded(I, st, strv(I, st, a[2]))
    if t['k'] == 'adt' and t['n'].split('::')[-1] in ('Ref', 'RefMut'):
        t = I.p.types[[y for y in t['a'] if isinstance(y, int)][0]]
    return ev(st, 'attr', nm, disp_value(I, t, x))
XW = {
    'new': lambda I, st, inst, a: [(st, ('t', 'xw', deep(I, st, a[0])))],
    'with_capacity': lambda I, st, inst, a: [(st, ('t', 'xw', deep(I, st, a[1])))],
    'start_element': lambda I, st, inst, a: ev(st, 'start', strv(I, st, a[1])),
    'end_element': lambda I, st, inst, a: ev(st, 'end'),
    'set_preserve_whitespaces': lambda I, st, inst, a: ev(st, 'keep', I.simp(st, a[1])),
    'write_text': lambda I, st, inst, a: ev(st, 'text', guarded(I, st, strv(I, st, a[1]))),
    'write_comment': lambda I, st, inst, a: ev(st, 'comment', guarded(I, st, strv(I, st, a[1]))),
    'write_text_fmt': lambda I, st, inst, a: fmt_go(I, st, fmt_pieces(I, st, a[1]), ('sk_event', ('str', 'text'))),
    'write_comment_fmt': lambda I, st, inst, a: fmt_go(I, st, fmt_pieces(I, st, a[1]), ('sk_event', ('str', 'comment'))),
    'write_attribute': x_attribute,
    'write_attribute_fmt': lambda I, st, inst, a: fmt_go(I, st, fmt_pieces(I, st, a[2]), ('sk_event', ('str', 'attr'), strv(I, st, a[1]))),
    'write_declaration': lambda I, st, inst, a: ev(st, 'declaration'),
    'end_document': lambda I, st, inst, a: [(st, ('t', 'xmltext', deep(I, st, a[0])))],
}
# ---------------------------------------------------------------- specification
def fallback_text(E, fb, opt):
    if fb == NONE: return ('str', '')
    f = fb[2][0]
    if f[1] == E.fb.get('None'): return ('str', ' none')
    if f[1] == E.fb.get('CurrentColor'): return ('str', ' currentColor')
    return concat(('str', ' '), ('t', 'ser', f[2][0], opt))
def value_text(E, v, opt, ident):
    n = E.L.avn[v[1]]
    if n in ('None', 'Inherit', 'CurrentColor'): return ('str', {'None': 'none', 'Inherit': 'inherit', 'CurrentColor': 'currentColor'}[n])
    if n == 'String': return v[2][0]
    if n == 'Link': return concat(('str', '#'), ident(unhandle(v[2][0])))
    if n == 'FuncLink': return concat(('str', 'url(#'), ident(unhandle(v[2][0])), ('str', ')'))
    if n == 'Paint': return concat(('str', 'url(#'), ident(unhandle(v[2][0])), ('str', ')'), fallback_text(E, v[2][1], opt))
    return ('t', 'ser', v[2][0], opt)
def attr_name(E, variant):
    if variant == 'Href': return 'xlink:href'
    if variant == 'Space': return 'xml:space'
    return E.names_a[variant]
def escaped(s):
    return s if s.startswith('&#') else ''.join('&#x%x;' % ord(c) for c in s)
def spec(E, b, opt):
    """expected events of a builder's document: [(event..., preserve?)]"""
    out = []
    ident = lambda n: b.n[n]['id'] if b.n[n]['id'] is not None else ('str', 'id' + n)
    def desc(n):
        yield n
        for k in b.n[n]['kids']:
            for x in desc(k): yield x
    def has_href(n): return any(E.D.lname(a) == E.L.id_name(E.L.aid['Href']) for a in b.n[n]['attrs'])
    def go(n, keep, parent):
        e = b.n[n]
        if e['kind'] == 'Comment': out.append(('comment', e['text'], keep)); return
        if e['kind'] == 'Text': out.append(('text', e['text'], keep)); return
        if e['kind'] == 'Element':
            tag = e['tag']; v = E.eid_order[tag[2][0][1]] if tag[1] == E.L.qn['Id'] else None
            out.append(('start', ('str', E.names_e[v]) if v else tag[2][0], keep))
            if v == 'Svg' and parent == 'ROOT':
                out.append(('attr', ('str', 'xmlns'), ('str', 'http://www.w3.org/2000/svg')))
                if any(has_href(x) for x in desc(n)): out.append(('attr', ('str', 'xmlns:xlink'), ('str', 'http://www.w3.org/1999/xlink')))
            i = ident(n)
            if i != ('str', ''): out.append(('attr', ('str', 'id'), i))
            ids = []; names = []
            for a in e['attrs']:
                nm = E.D.lname(a); (ids if nm[1] == E.L.qn['Id'] else names).append((nm[2][0], E.D.lval(a)))
            for nm, v2 in sorted(ids, key=lambda x: x[0][1]):
                an = E.aid_order[nm[1]]
                t = ('str', escaped(v2[2][0][1])) if an == 'Unicode' else value_text(E, v2, opt, ident)
                out.append(('attr', ('str', attr_name(E, an)), t))
            for nm, v2 in names: out.append(('attr', nm, value_text(E, v2, opt, ident)))
            keep2 = keep or v == 'Text'
            for k in e['kids']: go(k, keep2, n)
            out.append(('end', keep2))
            return
        for k in e['kids']: go(k, keep, n)
    go('ROOT', False, None)
    return out
def observed(E, st):
    """recorded events with the white space mode each was issued in"""
    keep = False; out = []
    for e in st.ev:
        if e[0] == 'keep':
            if e[1][0] != 'int': return None
            keep = bool(e[1][1])
        elif e[0] == 'attr': out.append(tuple(e))
        elif e[0] in ('start', 'end', 'text', 'comment', 'declaration'): out.append(tuple(e) + (keep,))
    return out
def show_ev(e):
    if e is None: return 'the end of the output'
    k = e[0]
    if k == 'start': r = 'element <%s>' % short(e[1])
    elif k == 'attr': r = 'attribute %s=%s' % (short(e[1]), short(e[2])[:120])
    elif k in ('text', 'comment'): r = '%s %s' % (k, short(e[1])[:60])
    else: r = 'end of element' if k == 'end' else k
    if k != 'attr': r += ' (white space %s)' % ('preserved' if e[-1] else 'indented')
    return r
def diff(want, got):
    for i in range(max(len(want), len(got))):
        w = want[i] if i < len(want) else None; g = got[i] if i < len(got) else None
        if w != g: return 'expected %s, found %s' % (show_ev(w), show_ev(g))
    return None

class Names(dict):
    """names of ids as the crate itself gives them (their tables are the subject of C08)"""
    def __init__(self, E, root, order): self.E = E; self.root = root; self.order = order
    def __missing__(self, n):
        for o in self.E.D.interp().run(self.E.p.roots[self.root], [ref(('adt', self.order.index(n), ()))], State()):
            if o.kind == 'ret' and o.value[0] == 'str': self[n] = o.value[1]; return self[n]
        raise Stop('name of %s' % n)
def names(E):
    E.names_a = Names(E, 'at_as_str', E.aid_order); E.names_e = Names(E, 'e_as_str', E.eid_order)

def opts(E, st):
    """unknown write options"""
    st.heap['OPT'] = {'val': ('adt', 0, tuple(('sym', 'opt:' + n) for n in E.wopt))}
    return ('ref', ('H', 'OPT'), ()), ('sym', 'opt:values')

def run_doc(ctx, E, b, name):
    ob = 'written: ' + name
    st = b.state()
    o, vo = opts(E, st)
    want = spec(E, b, vo)
    I = E.interp()
    try: outs = I.run(E.p.roots['w_write'], [DOC, o], st)
    except Stop as e: ctx.undecided(ob, e); ctx.absorb(I); return
    ctx.absorb(I)
    for x in outs:
        ctx.paths += 1
        if x.kind == 'panic':
            if x.state.taint: ctx.undecided(ob, 'not precise'); continue
            ctx.violated(ob, 'panic:' + name, '%s: writing the document panics (%s at %s)' % (name, x.msg, x.site)); continue
        if x.kind != 'ret': ctx.undecided(ob, x.msg or x.kind); continue
        got = observed(E, x.state)
        d = diff(want, got) if got is not None else 'white space mode unknown'
        r = x.value
        if d is None and not (r[0] == 't' and r[1] == 'xmltext'): d = 'the text of the XML writer is not what is returned'
        if d is None and E.xopt is not None:
            xo = r[2][2] if r[2][0] == 't' and r[2][1] == 'xw' else None
            if xo is not None and xo[0] == 'adt':
                for n, v in zip(E.xopt, xo[2]):
                    if v != ('sym', 'opt:' + n): d = 'XML option %s is %s, not the value given in WriteOptions' % (n, short(v)[:80])
        if d is None: ctx.ok(ob, '%s: %d writer events' % (name, len(want)))
        elif x.state.taint: ctx.undecided(ob, 'not precise: ' + ', '.join(sorted(map(str, x.state.taint)))[:200])
        else: ctx.violated(ob, 'written:' + name.replace(' ', '-'), '%s: %s' % (name, d))

# ---------------------------------------------------------------- documents
def el(E, b, name, tag, kids=(), attrs=(), id=''):
    t = ('adt', E.L.qn['Id'], (('adt', E.L.eid[tag], ()),)) if isinstance(tag, str) else ('adt', E.L.qn['Name'], (tag,))
    return b.node(name, tag=t, kids=kids, attrs=[attr(E, *a) for a in attrs], id=('str', id) if isinstance(id, str) else id)
def attr(E, n, v):
    nm = E.L.id_name(E.L.aid[n]) if isinstance(n, str) else E.L.str_name(n)
    return E.L.attr(nm, v)
def sv(E, x): return E.L.val('String', ('sym', x))
def txt(b, name, kind='Text'): return b.node(name, kind, text=('sym', 'content:' + name))
def root(b, kids): b.node('ROOT', 'Root', kids=kids)

def documents(E, tier):
    """(name, builder function)"""
    docs = []
    def doc(name):
        def d(f): docs.append((name, f))
        return d
    s = lambda x: sv(E, x)
    @doc('empty document')
    def _(b): root(b, [])
    @doc('nested elements, comments and a foreign element')
    def _(b):
        root(b, ['c0', 'svg', 'c3'])
        txt(b, 'c0', 'Comment'); txt(b, 'c3', 'Comment'); txt(b, 'c1', 'Comment'); txt(b, 'c2', 'Comment')
        el(E, b, 'svg', 'Svg', ['c1', 'g', 'r2', 'x'], [('Width', s('w'))], 'top')
        el(E, b, 'g', 'G', ['r1', 'c2', 'g2'], id='g')
        el(E, b, 'r1', 'Rect', [], [('X', s('x'))]); el(E, b, 'r2', 'Rect', id='second')
        el(E, b, 'g2', 'G', ['r3']); el(E, b, 'r3', 'Circle')
        el(E, b, 'x', ('sym', 'tagname'), ['y'], [(('sym', 'an'), s('av'))])
        el(E, b, 'y', ('str', 'other'), [])
    # text and white space
    for shape in (('t',), ('t', 'e'), ('e', 't'), ('t', 'e', 't'), ('e',), (), ('c', 't'), ('t', 'c')):
        for after in ((), ('r',), ('text',), ('title',)):
            for wrap in ('Svg', 'G', 'A'):
                if wrap == 'A' and (after or len(shape) > 2): continue
                def f(b, shape=shape, after=after, wrap=wrap):
                    root(b, ['svg']); ks = []
                    for i, k in enumerate(shape):
                        n = 'k%d' % i; ks.append(n)
                        if k == 't': txt(b, n)
                        elif k == 'c': txt(b, n, 'Comment')
                        else: el(E, b, n, 'Tspan', [n + 't']); txt(b, n + 't')
                    el(E, b, 'text', 'Text', ks)
                    top = ['text']
                    if after == ('r',): el(E, b, 'aft', 'Rect'); top.append('aft')
                    if after == ('text',): el(E, b, 'aft', 'Text', ['aftt']); txt(b, 'aftt'); top.append('aft')
                    if after == ('title',): el(E, b, 'aft', 'Title', ['aftt']); txt(b, 'aftt'); top.append('aft')
                    if wrap != 'Svg': el(E, b, 'w', wrap, top); top = ['w']
                    el(E, b, 'svg', 'Svg', top)
                docs.append(('text content %s in %s%s' % ('+'.join(shape) or 'none', wrap, ' then ' + after[0] if after else ''), f))
    for t in ('Title', 'Desc', 'Script', 'Tspan', 'Tref', 'TextPath', 'A', 'G'):
        def f(b, t=t):
            root(b, ['svg']); el(E, b, 'svg', 'Svg', ['e']); el(E, b, 'e', t, ['x']); txt(b, 'x')
        docs.append(('text in %s outside of a text element' % t, f))
    # name spaces
    places = ['svg', 'g', 'u', 'deep', 'last', 'inner', 'foreign', 'none', 'g+last', 'svg+deep']
    for pl in places:
        for val in ('Link', 'String', 'None'):
            def f(b, pl=pl, val=val):
                at = set(pl.split('+'))
                def a(n):
                    if n not in at: return []
                    return [('Href', b.link('Link', 'tgt') if val == 'Link' else E.L.val('None') if val == 'None' else s('href'))]
                root(b, ['svg']); el(E, b, 'svg', 'Svg', ['g', 'inner', 'tgt', 'last'], a('svg'))
                el(E, b, 'g', 'G', ['u', 'g2'], a('g')); el(E, b, 'u', 'Use', [], a('u')); el(E, b, 'g2', 'G', ['deep']); el(E, b, 'deep', 'Image', [], a('deep'))
                el(E, b, 'inner', 'Svg', ['foreign'], a('inner')); el(E, b, 'foreign', ('str', 'foo'), [], a('foreign') + [(('str', 'href'), s('no'))])
                el(E, b, 'tgt', 'Rect', id='target'); el(E, b, 'last', 'Use', [], a('last'))
            docs.append(('xlink:href on %s, %s value' % (pl, val), f))
    @doc('two svg elements, links in the second')
    def _(b):
        root(b, ['s1', 's2']); el(E, b, 's1', 'Svg', ['r']); el(E, b, 'r', 'Rect'); el(E, b, 's2', 'Svg', ['u']); el(E, b, 'u', 'Use', [], [('Href', s('x'))])
    @doc('top element is not svg')
    def _(b):
        root(b, ['g']); el(E, b, 'g', 'G', ['s']); el(E, b, 's', 'Svg', ['u']); el(E, b, 'u', 'Use', [], [('Href', s('x'))])
    # attributes: order, ids
    base = ['Href', 'Space', 'Fill', 'X', 'Transform']
    n = 0
    for perm in itertools.permutations(base, 3):
        for pos in range(4):
            if tier == 'quick' and (n := n + 1) % 4: continue
            def f(b, perm=perm, pos=pos):
                root(b, ['svg'])
                at = [(x, s(x)) for x in perm]
                at.insert(pos, (('str', 'data-b'), s('data'))); at.insert(0 if pos % 2 else len(at), (('str', 'a-last'), s('data2')))
                el(E, b, 'svg', 'Svg', [], at, 'i' if pos % 2 else '')
            docs.append(('attribute order %s, others at %d' % (','.join(perm), pos), f))
    ids = [x for x in E.aid_order if x not in ('Unicode',)]
    for i in range(0, len(ids), 9):
        grp = ids[i:i + 9]
        for rev in (False, True):
            def f(b, grp=grp, rev=rev):
                root(b, ['g']); el(E, b, 'g', 'G', ['r'], [], ''); el(E, b, 'r', 'Rect', [], [(x, s(x)) for x in (grp[::-1] if rev else grp)], 'r')
            docs.append(('attributes %s..%s%s' % (grp[0], grp[-1], ' reversed' if rev else ''), f))
    for i in range(0, len(E.eid_order), 8):
        grp = E.eid_order[i:i + 8]
        def f(b, grp=grp):
            root(b, ['top']); el(E, b, 'top', 'G', ['e' + x for x in grp])
            for x in grp: el(E, b, 'e' + x, x, [], [('X', s(x))])
        docs.append(('elements %s..%s' % (grp[0], grp[-1]), f))
    for i in range(0, len(E.eid_order), 8):
        grp = [x for x in E.eid_order[i:i + 8] if x != 'Text']
        def f(b, grp=grp):
            root(b, ['top']); ks = []
            for x in grp:
                el(E, b, 'e' + x, x, ['i' + x]); txt(b, 'i' + x); txt(b, 't' + x); ks += ['e' + x, 't' + x]
            el(E, b, 'top', 'Text', ks)
        docs.append(('elements %s..%s inside a text element' % (grp[0], grp[-1]), f))
        def f(b, grp=grp):
            root(b, ['top']); ks = []
            for x in grp:
                el(E, b, 'e' + x, x, ['i' + x], [('Space', s('sp'))]); el(E, b, 'i' + x, 'Text', ['t' + x]); txt(b, 't' + x); ks.append('e' + x)
            el(E, b, 'top', 'Svg', ks)
        docs.append(('text elements inside %s..%s' % (grp[0], grp[-1]), f))
    # generated documents: every ordered tree of up to three nodes below svg, every kind of node in every place, attribute sets in rotation (several per document)
    sets = [lambda i: [], lambda i: [('X', s('x%d' % i))], lambda i: [(('str', 'own-%d' % i), s('o%d' % i)), ('Space', s('s%d' % i)), ('Fill', s('f%d' % i)), (('str', 'b-%d' % i), s('b%d' % i))],
            lambda i: [(('sym', 'name%d' % i), s('n%d' % i))], lambda i: [('Transform', s('t%d' % i)), (('str', 'a'), s('a%d' % i)), ('Href', s('h%d' % i)), (('str', 'c'), s('c%d' % i)), ('Fill', s('f%d' % i)), (('str', 'b'), s('d%d' % i)), ('X', s('x%d' % i))]]
    def put(b, t, kinds, pre, cnt):
        i = cnt[0]; cnt[0] += 1
        k = next(kinds); n = '%s%d' % (pre, i)
        kids = [put(b, c, kinds, pre, cnt) for c in t]
        if k in 'tc': txt(b, n, 'Text' if k == 't' else 'Comment')
        else: el(E, b, n, {'G': 'G', 'X': 'Text', 'S': 'Tspan'}[k] if k != 'M' else ('str', 'own'), kids, sets[(i + len(pre)) % 5](i), ('i' + n) if (i + len(pre)) % 3 == 0 else '')
        return n
    shapes = []
    for m in range(2, 5 if tier == 'quick' else 6):
        for t in trees(m):
            inn = inner(t)[1:]
            for ks in itertools.product(*['GXMS' if i else 'GXMtc' for i in inn]):
                if ks.count('X') > 1: continue
                shapes.append((t, ks))
    shapes.append((((((((),),),),),), 'GMGXS'))
    step = 2
    for j in range(0, len(shapes), step):
        grp = shapes[j:j + step]
        def f(b, grp=grp):
            top = []; cnt = [0]
            for j, (t, ks) in enumerate(grp):
                it = iter(ks); w = 'w%d' % j
                ks2 = [put(b, c, it, 'n' * (1 + j % 3), cnt) for c in t]
                el(E, b, w, 'Svg', ks2, sets[j % 5](100 + j)); top.append(w)
            root(b, ['top']); el(E, b, 'top', 'Svg', top)
        docs.append(('generated %s: %s ...' % (j, tree_text(grp[0][0], ('svg',) + tuple(grp[0][1]))), f))
    # values in documents
    for v in E.L.av:
        for an in ('Fill', None):
            def f(b, v=v, an=an):
                root(b, ['svg']); el(E, b, 'svg', 'Svg', ['r', 't']); el(E, b, 't', 'LinearGradient', id=('str', 'grad'))
                if v in ('Link', 'FuncLink'): val = b.link(v, 't')
                elif v == 'Paint': val = b.link('Paint', 't', some(('adt', E.fb['None'], ())))
                else: val = E.L.val(v, *[('sym', 'payload')] * len(E.p.types[E.L.av_ty]['v'][E.L.av[v]]['f']))
                el(E, b, 'r', 'Rect', [], [(an or ('str', 'custom'), val), ('Width', s('w'))])
            docs.append(('%s value under %s name' % (v, 'an SVG' if an else 'a custom'), f))
    # unicode
    for u in ('a', 'ab', '\u0431', '\U0001f600x', '&', '&amp;', '#', '&#x61;', '&#', '\U0010fffd', '\U000e0001', '\x7f', '\u0416', '<', '"', "'", ' ', '', 'x&#'):
        def f(b, u=u):
            root(b, ['svg']); el(E, b, 'svg', 'Svg', ['g']); el(E, b, 'g', 'Glyph', [], [('Unicode', E.L.val('String', ('str', u))), ('D', s('d'))])
        docs.append(('unicode %r' % u, f))
    return docs

def C15(p, ctx):
    ctx.rule = ('Abstract interpretation of Document::to_string_with_opt over explicit abstract documents (element kinds, nesting, attribute sets and orders, text and comments; '
                'attribute values and texts unknown) with the options unknown.  Rule: the calls of the XML writer are, in document order, one start and one end per element, its attributes '
                '(name spaces on the outermost svg, xlink only if used; id; SVG attributes in AttributeId order; the other attributes) each exactly once, every text and comment; '
                'white space is preserved exactly inside text elements; the writer gets the options it was given.')
    ctx.assume = ['xmlwriter produces what its API calls ask for', 'svgtypes serializers are functions of value and options', 'the names of ids are those of C08']
    E = Env(p); names(E)
    docs = documents(E, ctx.tier)
    def one(c, item):
        name, f = item
        b = E.D.new(); f(b)
        run_doc(c, E, b, name)
    par.each(ctx, docs, one, 4)

    # Display of a document
    ob = 'to_string writes with the default options'
    b = E.D.new(); root(b, ['svg']); el(E, b, 'svg', 'Svg', ['r'], [], 'i'); el(E, b, 'r', 'Rect', [], [('Width', E.L.val('Length', ('sym', 'payload')))])
    st = b.state(); I = E.interp(); dv = None
    for x in E.interp().run(p.roots['w_default'], [], State()):
        if x.kind == 'ret' and x.value[0] == 'adt': dv = dict(zip(E.wopt, x.value[2]))
    try: outs = I.run(p.roots['w_to_string'], [DOC], st) if dv else []
    except Stop as e: ctx.undecided(ob, e); outs = []
    ctx.absorb(I)
    for x in outs:
        if x.kind != 'ret' or x.state.taint: ctx.undecided(ob, x.msg or x.kind); continue
        d = diff(spec(E, b, dv.get('values')), observed(E, x.state))
        r = x.value
        if d is None and not (r[0] == 't' and r[1] == 'xmltext'): d = 'the text of the XML writer is not what is returned'
        if d is None and E.xopt and r[2][2][0] == 'adt':
            for n, v in zip(E.xopt, r[2][2][2]):
                if v != dv.get(n): d = 'XML option %s is %s' % (n, short(v)[:80])
        ctx.judge(ob, d is None, 'to_string', 'Document::to_string: %s' % d)
    if dv:
        ob = 'default options are the documented ones'
        ind = {v['n']: i for i, v in enumerate(p.types[p.adt('Indent', 'xmlwriter')[0]]['v'])} if p.adt('Indent', 'xmlwriter') else None
        if ind is None: ctx.undecided(ob, 'Indent')
        else:
            want = dict(use_single_quote=('int', 0), indent=('adt', ind['Spaces'], (('int', 4),)), attributes_indent=('adt', ind['None'], ()))
            bad = [n for n in want if dv.get(n) != want[n]]
            ctx.judge(ob, not bad, 'default-options', 'WriteOptions::default(): %s is not the documented default' % ', '.join(bad))

# ---------------------------------------------------------------- C16
def C16(p, ctx):
    ctx.rule = ('Abstract interpretation of the value serializer (WriteBuffer::write_buf_opt) and of Display for every AttributeValue variant with unknown payload, unknown options and an '
                'unknown non-empty buffer.  Rule: exactly the text of the value is appended: keywords, the string itself, #id / url(#id) of the linked element, the paint fallback after a space, '
                'and for svgtypes values the svgtypes serialization of exactly that payload with exactly those options.')
    ctx.assume = ['svgtypes serializers are functions of value and options']
    E = Env(p)
    av = p.types[E.L.av_ty]['v']
    cases = []
    for i, v in enumerate(av):
        if v['n'] == 'Paint':
            cases.append(('Paint', NONE, 'no fallback'))
            for k, fi in E.fb.items(): cases.append(('Paint', some(('adt', fi, (('sym', 'color'),) if k == 'Color' else ())), 'fallback ' + k))
        else: cases.append((v['n'], None, ''))
    def build(b, v, fb, ident):
        b.node('ROOT', 'Root', kids=['r', 't']); el(E, b, 't', 'LinearGradient', id=ident)
        if v in ('Link', 'FuncLink'): val = b.link(v, 't')
        elif v == 'Paint': val = b.link('Paint', 't', fb)
        else: val = E.L.val(v, *[('sym', 'payload')] * len(av[E.L.av[v]]['f']))
        el(E, b, 'r', 'Rect', [], [('Fill', val)])
        return val
    before = ('sym', 'before')
    for v, fb, lab in cases:
        for what in ('write_buf_opt', 'Display'):
            for ident in (('sym', 'ident'), ('str', 'x')) if v in ('Link', 'FuncLink', 'Paint') else (('str', 'x'),):
                ob = '%s of %s %s' % (what, v, lab)
                b = E.D.new(); val = build(b, v, fb, ident); st = b.state()
                st.heap['VAL'] = {'val': val}
                I = E.interp()
                if what == 'Display':
                    opt = None; args = [('ref', ('H', 'VAL'), ())]; rootn = 'w_display'
                else:
                    st.heap['BUF'] = {'val': ('vec', (('chunk', before),))}; st.heap['OPT'] = {'val': ('sym', 'options')}
                    opt = ('sym', 'options')
                    args = [('ref', ('H', 'VAL'), ()), ('ref', ('H', 'BUF'), ()), ('ref', ('H', 'OPT'), ())]; rootn = 'w_value'
                try: outs = I.run(p.roots[rootn], args, st)
                except Stop as e: ctx.undecided(ob, e); ctx.absorb(I); continue
                ctx.absorb(I)
                for x in outs:
                    ctx.paths += 1
                    if x.kind == 'stuck' or x.state.taint: ctx.undecided(ob, x.msg or sorted(map(str, x.state.taint))); continue
                    if x.kind == 'panic': ctx.violated(ob, ob.replace(' ', '-'), '%s panics (%s at %s)' % (ob, x.msg, x.site)); continue
                    if opt is not None: got = bytes_text(x.state.heap['BUF']['val']); o2 = opt
                    else: got = x.value; o2 = None
                    if got is None: ctx.undecided(ob, 'bytes'); continue
                    if o2 is None:
                        o2 = find_opt(got)
                        if o2 is not None and not (o2[0] == 't' and (o2[1] == 'default-options' or (o2[1] == 'call' and 'efault' in o2[2]))):
                            ctx.violated(ob, ob.replace(' ', '-'), '%s uses options other than the default ones: %s' % (ob, short(o2)[:100])); continue
                        want = value_text(E, val, o2 or ('sym', '-'), lambda n: ident)
                    else: want = concat(before, value_text(E, val, o2, lambda n: ident))
                    ctx.judge(ob, got == want, ob.replace(' ', '-'), '%s: expected %s, found %s' % (ob, short(want)[:120], short(got)[:160]))
    # Display of attributes: name='value', joined by one space, in stored order
    names(E)
    dflt = lambda got: find_opt(got) or ('sym', '-')
    sets = [[('Fill', 'None', ())], [('Href', 'String', (('sym', 'a'),)), ('Space', 'String', (('sym', 'b'),))], [],
            [('X', 'Length', (('sym', 'l'),)), (('sym', 'custom'), 'String', (('sym', 'c'),)), ('A', 'Inherit', ())] if 'A' in E.L.aid else [('X', 'Length', (('sym', 'l'),)), (('sym', 'custom'), 'String', (('sym', 'c'),)), ('Fill', 'Inherit', ())]]
    for k, at in enumerate(sets):
        for what in ('w_display_attrs', 'w_display_attr'):
            if what == 'w_display_attr' and len(at) != 1 and k != 1: continue
            use = at if what == 'w_display_attrs' else at[:1]
            ob = 'Display of %d attribute%s (%s)' % (len(use), 's' if len(use) != 1 else '', what)
            vals = [attr(E, n, E.L.val(v, *pl)) for n, v, pl in use]
            st = State()
            st.heap['A'] = {'val': ('adt', 0, (('vec', tuple(vals)),)) if what == 'w_display_attrs' else vals[0]}
            I = E.interp()
            try: outs = I.run(p.roots[what], [('ref', ('H', 'A'), ())], st)
            except Stop as e: ctx.undecided(ob, e); continue
            ctx.absorb(I)
            for x in outs:
                ctx.paths += 1
                if x.kind == 'stuck' or x.state.taint: ctx.undecided(ob, x.msg or sorted(map(str, x.state.taint))); continue
                if x.kind == 'panic': ctx.violated(ob, ob.replace(' ', '-'), '%s panics (%s at %s)' % (ob, x.msg, x.site)); continue
                parts = []
                for i, (n, v, pl) in enumerate(use):
                    parts += [('str', ' ')] * (i > 0) + [('str', attr_name(E, n)) if isinstance(n, str) else n, ('str', "='"), value_text(E, E.L.val(v, *pl), dflt(x.value), None), ('str', "'")]
                want = concat(*parts) if parts else ('str', '')
                ctx.judge(ob, x.value == want, ob.replace(' ', '-'), '%s: expected %s, found %s' % (ob, short(want)[:150], short(x.value)[:200]))
def find_opt(v):
    if v[0] == 't' and v[1] == 'ser': return v[3]
    if v[0] == 't':
        for x in v[2:]:
            if isinstance(x, tuple):
                r = find_opt(x)
                if r is not None: return r
    return None

# ---------------------------------------------------------------- C24
def C24(p, ctx):
    ctx.rule = ('Abstract interpretation of Display and Debug of nodes (every node type, unknown id, tag, text and attributes, zero to two users), attribute lists, ids, qualified names and errors. Rule: the text is the fixed frame of the node kind around exactly '
                'the stored id, name, attributes, text and user ids, in that order; ids and names are shown by their SVG name; wrapped errors are shown as the error they wrap and the other errors have distinct texts.')
    ctx.assume = ['Display of foreign values is a function of the value']
    E = Env(p); names(E); L = E.L; D = E.D
    def show_all(ob, root_, arg, mk, want, key=None, ctx=ctx):
        st = mk() if callable(mk) else mk
        I = E.interp()
        try: outs = I.run(p.roots[root_], [arg], st)
        except Stop as e: ctx.undecided(ob, e); ctx.absorb(I); return []
        ctx.absorb(I); r = []
        for x in outs:
            ctx.paths += 1
            if x.kind == 'stuck' or x.state.taint: ctx.undecided(ob, x.msg or sorted(map(str, x.state.taint))); continue
            if x.kind == 'panic': ctx.violated(ob, (key or ob).replace(' ', '-'), '%s panics (%s at %s)' % (ob, x.msg, x.site)); continue
            r.append(x.value)
            if want is None: continue
            w = want(I, x)
            if w is None: ctx.undecided(ob, 'the path does not tell whether the id is empty'); continue
            ctx.judge(ob, x.value == w, (key or ob).replace(' ', '-'), '%s: expected %s, found %s' % (ob, short(w)[:160], short(x.value)[:200]))
        return r
    # ids and names
    def name_forms(c, job):
        kind, vs = job
        order, nm = (E.aid_order, E.names_a) if kind == 'a' else (E.eid_order, E.names_e)
        word = {'a': 'attribute', 'e': 'element'}[kind]
        if vs is None:
            st = State(); st.heap['X'] = {'val': ('adt', L.qn['Name'], (('sym', 'nm'),))}
            show_all('Display of a non-SVG %s name' % word, 'w_display_%sname' % kind, ('ref', ('H', 'X'), ()), st, lambda I, x: ('sym', 'nm'), ctx=c)
            return
        for v in vs:
            i = order.index(v)
            for what in ('display', 'debug'):
                st = State(); st.heap['X'] = {'val': ('adt', i, ())}
                show_all('%s of %s id %s' % (what, word, v), 'w_%s_%sid' % (what, kind), ('ref', ('H', 'X'), ()), st, lambda I, x: ('str', nm[v]), '%s-of-%s-ids' % (what, kind), c)
            st = State(); st.heap['X'] = {'val': ('adt', L.qn['Id'], (('adt', i, ()),))}
            show_all('Display of %s name %s' % (word, v), 'w_display_%sname' % kind, ('ref', ('H', 'X'), ()), st, lambda I, x: ('str', attr_name(E, v) if kind == 'a' else nm[v]), 'display-of-%s-names' % kind, c)
    jobs = [(k, None) for k in 'ae'] + [(k, o[i:i + 10]) for k, o in (('a', E.aid_order), ('e', E.eid_order)) for i in range(0, len(o), 10)]
    par.each(ctx, jobs, name_forms, 1)
    # nodes
    S = lambda x: ('str', x)
    tags = [('svg', 'Rect', S('rect')), ('non-SVG', ('sym', 'tagname'), ('sym', 'tagname'))]
    asets = [[], [('Fill', 'None', ())], [('Href', 'String', (('sym', 'a'),)), (('sym', 'custom'), 'String', (('sym', 'c'),))], [('X', 'Inherit', ()), ('Opacity', 'CurrentColor', ()), ('Space', 'String', (('sym', 'b'),))]]
    def atext(at):
        parts = []
        for i, (n, v, pl) in enumerate(at):
            parts += [S(' ')] * (i > 0) + [S(attr_name(E, n)) if isinstance(n, str) else n, S("='"), value_text(E, L.val(v, *pl), ('sym', '-'), None), S("'")]
        return concat(*parts) if parts else S('')
    for what in ('Display', 'Debug'):
        rt = 'w_%s_node' % what.lower()
        for tl, tg, tt in tags:
            for ident in (S(''), S('x'), S(' '), S(' x '), S('#x'), S('id'), ('sym', 'ident')):
                for k, at in enumerate(asets):
                    for users in ((), ('u1',), ('u1', 'u2')):
                        def mk():
                            b = D.new(); root(b, ['n'])
                            el(E, b, 'n', tg, ['t'], [(n, L.val(v, *pl)) for n, v, pl in at], ident); txt(b, 't')
                            for u in users: el(E, b, u, 'Rect', [], [], ('sym', 'id' + u))
                            b.n['n']['linked'] = [handle(u) for u in users]
                            return b.state()
                        def want(I, x):
                            e = I.simp(x.state, models.isempty(I, x.state, ident))
                            if e[0] != 'int': return None
                            w = [S('<' if what == 'Display' else 'Element('), tt]
                            if not e[1]: w += [S(" id='"), ident, S("'")]
                            if at: w += [S(' '), atext(at)]
                            if users and what == 'Debug':
                                w.append(S('; linked-nodes:'))
                                for u in users: w += [S(" '"), ('sym', 'id' + u), S("'")]
                            return concat(*(w + [S('>' if what == 'Display' else ')')]))
                        show_all('%s of a %s element, id %s, %d attributes, %d users' % (what, tl, short(ident), len(at), len(users)), rt, mref('n'), mk, want, '%s-of-element' % what)
        for kind, pre, post in (('Text', '' if what == 'Display' else 'Text(', '' if what == 'Display' else ')'), ('Comment', '<!--' if what == 'Display' else 'Comment(', '-->' if what == 'Display' else ')'), ('Root', None, None)):
            def mk():
                b = D.new()
                if kind == 'Root': b.node('n', 'Root')
                else: root(b, ['n']); txt(b, 'n', kind)
                return b.state()
            w = S('' if what == 'Display' else 'Root()') if kind == 'Root' else concat(S(pre), ('sym', 'content:n'), S(post))
            show_all('%s of a %s node' % (what, kind), rt, mref('n'), mk, lambda I, x: w)
    for at in asets:
        st = State(); st.heap['A'] = {'val': ('adt', 0, (('vec', tuple(attr(E, n, L.val(v, *pl)) for n, v, pl in at)),))}
        if at: show_all('Debug of %d attributes' % len(at), 'w_debug_attrs', ('ref', ('H', 'A'), ()), st, lambda I, x: concat(S('Attributes('), atext(at), S(')')))
    # errors
    et = [t for t in p.adt('Error') if any(v['n'] == 'ElementCrosslink' for v in p.types[t]['v'])]; pt = p.adt('ParserError')
    if not et or not pt: ctx.undecided('errors', 'error types not found'); return
    seen = {}
    inner = {}
    for i, v in enumerate(p.types[et[0]]['v']):
        st = State(); st.heap['X'] = {'val': ('adt', i, ())}
        for t in show_all('Display of Error::' + v['n'], 'w_display_error', ('ref', ('H', 'X'), ()), st, None):
            ok_ = t[0] == 'str' and t[1].strip() and t not in seen
            seen[t] = v['n']; inner[i] = t
            ctx.judge('text of Error::' + v['n'], bool(ok_), 'error-text:' + v['n'], 'Display of Error::%s is %s' % (v['n'], short(t)[:100]))
    seen = {}
    for i, v in enumerate(p.types[pt[0]]['v']):
        if v['n'] == 'DomError':
            for j, t in inner.items():
                st = State(); st.heap['X'] = {'val': ('adt', i, (('adt', j, ()),))}
                show_all('Display of ParserError::DomError(%d)' % j, 'w_display_perror', ('ref', ('H', 'X'), ()), st, lambda I, x: t, 'display-of-DomError')
                I = E.interp()
                for x in I.run(p.roots['pe_from_error'], [('adt', j, ())], State()):
                    ob = 'ParserError::from(Error)'
                    if x.kind != 'ret' or x.state.taint: ctx.undecided(ob, x.msg or x.kind); continue
                    ctx.judge(ob, x.value == ('adt', i, (('adt', j, ()),)), 'from-error', 'ParserError::from gives %s' % short(x.value)[:80])
            continue
        st = State(); st.heap['X'] = {'val': ('adt', i, tuple(('sym', 'payload') for _ in v['f']))}
        for t in show_all('Display of ParserError::' + v['n'], 'w_display_perror', ('ref', ('H', 'X'), ()), st, None):
            has = not v['f'] or 'payload' in repr(t)
            ctx.judge('text of ParserError::' + v['n'], t != S('') and t not in seen and has, 'error-text:' + v['n'], 'Display of ParserError::%s is %s' % (v['n'], short(t)[:100]))
            seen[t] = v['n']
