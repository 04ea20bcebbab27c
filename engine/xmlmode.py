"""Abstract XML/CSS input for the parser: an explicit tree of elements, attributes and style rules whose
strings are unknown, and models of the roxmltree / simplecss / svgtypes API over it.  The parser itself is
interpreted from Document::from_str, everything svgdom does is inlined."""
import json, os, common
from interp import *
import models
from models import deep, strv, rd, wr, it_next
from dommode import Dom
from dom import handle, unhandle, ref

SVG = 'http://www.w3.org/2000/svg'; XLINK = 'http://www.w3.org/1999/xlink'; XML = 'http://www.w3.org/XML/1998/namespace'
BOOLOPS.update({'matches', 'at_end', 'tsdefault', 'noelem'})

class XDoc:
    """nodes: list of dict(kind, ns, name, attrs, kids, text, parent); index 0 is the root"""
    def __init__(self):
        self.n = [dict(kind='Root', ns=None, name=None, attrs=[], kids=[], text=None, parent=None)]
        self.styles = {}      # style text / style attribute value -> list of rules / declarations
    def add(self, parent, kind, **kw):
        k = len(self.n)
        e = dict(kind=kind, ns=SVG, name='rect', attrs=[], kids=[], text=None, parent=parent); e.update(kw)
        self.n.append(e); self.n[parent]['kids'].append(k)
        return k
    def elem(self, parent, name, attrs=(), ns=SVG):
        """attrs: [(name, value) | (ns, name, value)]"""
        return self.add(parent, 'Element', name=name, ns=ns, attrs=[a if len(a) == 3 else (None,) + tuple(a) for a in attrs])
    def text(self, parent, v, kind='Text'): return self.add(parent, kind, text=v)
    def css(self, text, rules): self.styles[text] = rules       # rules: [(selector, [(name, value)])]
    def decls(self, value, ds): self.styles[value] = ds          # [(name, value)]
    def concrete_styles(self):
        """replaces unknown style texts by fixed ones; False if there are none"""
        ren = {v: ('str', str(v[1])) for v in self.styles if v[0] == 'sym'}
        if not ren: return False
        self.styles = {ren.get(k, k): d for k, d in self.styles.items()}
        for e in self.n:
            e['text'] = ren.get(e['text'], e['text'])
            e['attrs'] = [a[:2] + (ren.get(a[2], a[2]),) for a in e['attrs']]
        return True
    def renamed(self, en, an):
        """a copy in which the placeholders '?Variant' are the SVG names; '?e' for other e stay unknown names"""
        r = XDoc()
        def e(n): return en.get(n[1:], n) if isinstance(n, str) and n[:1] == '?' else n
        def a(n): return an.get(n[1:], n) if isinstance(n, str) and n[:1] == '?' else n
        r.n = [dict(x, name=e(x['name']), attrs=[(y[0], a(y[1]), y[2]) for y in x['attrs']], kids=list(x['kids'])) for x in self.n]
        def ds(d): return [(a(n), w) for n, w in d]
        r.styles = {k: [(sel, ds(w)) if isinstance(w, list) else (a(sel), w) for sel, w in d] for k, d in self.styles.items()}
        return r
    def order(self, k):
        r = [k]
        for c in self.n[k]['kids']: r += self.order(c)
        return r

def S(x): return ('str', x) if isinstance(x, str) else x
def opt(x): return NONE if x is None else some(S(x))
def xn(k): return ('t', 'xn', ('int', k))

KEYWORDS = ('none', 'inherit', 'currentColor', 'normal', 'baseline', 'sub', 'super', 'auto')
def stream_src(s):
    if s[0] == 't' and s[1] == 'call' and 'Stream' in s[2] and s[2].endswith('::from') and len(s) == 4: return s[3]
    return None

def op_matches(op, w, v):
    """CSS attribute operators: exists, =, ~=, |="""
    return [lambda: True, lambda: v == w, lambda: w in v.split(' '), lambda: v == w or v.startswith(w + '-')][op]()
def select(X, sel, k, i=None):
    """reference selector matching (CSS 2.1) over the abstract document"""
    el = lambda j: X.n[j]['kind'] == 'Element'
    def anc(j):
        r = []
        while X.n[j]['parent'] is not None: j = X.n[j]['parent']; r.append(j)
        return [x for x in r if el(x)]
    def prev(j):
        ks = X.n[X.n[j]['parent']]['kids']; b = [x for x in ks[:ks.index(j)] if el(x)]
        return b[-1] if b else None
    if i is None: i = len(sel) - 1
    comb, ty, subs = sel[i]
    if ty is not None and X.n[k]['name'] != ty: return False
    for s in subs:
        if s[0] == 'attr':
            vs = [v for ns, n, v in X.n[k]['attrs'] if ns is None and n == s[1]]
            if not vs or not op_matches(s[2], s[3], vs[0]): return False
        elif s[1] != 0 or prev(k) is not None: return False
    if comb == 0: return True
    if comb == 1: return any(select(X, sel, a, i - 1) for a in anc(k))
    if comb == 2: return bool(anc(k)) and select(X, sel, anc(k)[0], i - 1)
    return prev(k) is not None and select(X, sel, prev(k), i - 1)

class Parser:
    def __init__(self, p, dom=None):
        self.p = p; self.D = dom or Dom(p); self.L = self.D.L
        self.decl_ty = (p.adt('Declaration', 'simplecss') or [None])[0]
        self.rule_ty = (p.adt('Rule', 'simplecss') or [None])[0]
        self.sheet_ty = (p.adt('StyleSheet', 'simplecss') or [None])[0]
        self.xnt = {}
        for t in p.adt('NodeType', 'roxmltree'):
            vs = p.types[t]['v']
            if any(v['n'] == 'PI' for v in vs): self.xnt = {v['n']: i for i, v in enumerate(vs)}
        names = {v['n']: i for i, v in enumerate(p.types[self.L.aid_ty]['v'])}
        self.stubs = {}
        tb = json.load(open(os.path.join(common.VERIF, 'spec', 'tables.json')))
        def tab(ns, ty):
            vs = {v['n'] for v in p.types[ty]['v']}
            d = {''.join(w[:1].upper() + w[1:] for w in n.split('-')): n for n in ns}
            return dict({k: n for k, n in d.items() if k in vs}, unknown='x-unknown')
        self.enames = tab(tb['elements'], self.L.eid_ty); self.anames = tab(tb['attributes'], self.L.aid_ty)
    def rec(self, ty, **kw):
        return ('adt', 0, tuple(kw.get(n, ('sym', 'field:' + n)) for n, _ in self.p.types[ty]['v'][0]['f']))
    def selector(self, sel):
        """a name (matching decided by the configuration) or [(combinator, type or None, [sub])] with
        sub = ('attr', name, op, value) | ('pseudo', index)"""
        if not isinstance(sel, list): return ('t', 'sel', S(sel))
        A = lambda n: self.p.adt(n, 'simplecss')[0]
        comps = []
        for comb, ty, subs in sel:
            kind = ('adt', 1, ()) if ty is None else ('adt', 0, (S(ty),))
            ss = tuple(('adt', 0, (S(x[1]), ('adt', x[2], () if x[2] == 0 else (S(x[3]),)))) if x[0] == 'attr' else
                       ('adt', 1, (('adt', x[1], ()),)) for x in subs)
            comps.append(self.rec(A('Component'), combinator=('adt', comb, ()), selector=self.rec(A('SimpleSelector'), kind=kind, subselectors=('vec', ss))))
        return self.rec(A('Selector'), components=('vec', tuple(comps)))
    # ---------------------------------------------------------------- models
    def extra(self, X, cfg):
        P = self
        def node(I, st, a): 
            v = deep(I, st, a)
            if v[0] == 't' and v[1] == 'xn': return v[2][1]
            raise Stop('XML node %s' % str(v)[:60])
        def name_arg(I, st, v):
            v = deep(I, st, v)
            if v[0] == 'adt' and len(v[2]) == 2: return strv(I, st, v[2][0]), strv(I, st, v[2][1])
            if v[0] == 't' and v[1] == 'xname':
                e = X.n[v[2][1]]; return (S(e['ns']) if e['ns'] is not None else None), S(e['name'])
            return None, v
        def it(st, ks): return [(st, ('into', ('vec', tuple(xn(k) for k in ks))))]
        def attr_of(I, st, a):
            v = deep(I, st, a)
            if v[0] == 't' and v[1] == 'xa': return X.n[v[2][1]]['attrs'][v[3][1]]
            raise Stop('XML attribute')
        def same(I, st, x, y):
            x = S(x); y = S(y)
            if x == y: return True
            if x[0] == 'str' and y[0] == 'str': return False
            e = models.streq(I, st, x, y)
            if e[0] == 'int': return bool(e[1])
            raise Stop('comparison of unknown XML names')
        def find_attr(I, st, k, nm):
            ns, n = nm
            for j, (ans, an, av) in enumerate(X.n[k]['attrs']):
                if (ans is None) != (ns is None): continue
                if ans is not None and not same(I, st, ans, ns): continue
                if same(I, st, an, n): return j, av
            return None
        def sib(k, d):
            p = X.n[k]['parent']
            if p is None: return []
            ks = X.n[p]['kids']; i = ks.index(k)
            return ks[i + 1:] if d > 0 else ks[:i][::-1]
        def anc(k):
            r = []
            while X.n[k]['parent'] is not None: k = X.n[k]['parent']; r.append(k)
            return r
        def el(k): return X.n[k]['kind'] == 'Element'
        def first(st, ks): return [(st, some(xn(ks[0])) if ks else NONE)]
        def text_of(k):
            e = X.n[k]
            if e['kind'] in ('Text', 'Comment'): return e['text']
            if e['kind'] == 'Element' and e['kids'] and X.n[e['kids'][0]]['kind'] == 'Text': return X.n[e['kids'][0]]['text']
            return None
        N = {
            'node_type': lambda I, st, k, a: [(st, ('adt', P.xnt[X.n[k]['kind']], ()))],
            'is_root': lambda I, st, k, a: [(st, boolv(X.n[k]['kind'] == 'Root'))],
            'is_element': lambda I, st, k, a: [(st, boolv(el(k)))],
            'is_text': lambda I, st, k, a: [(st, boolv(X.n[k]['kind'] == 'Text'))],
            'is_comment': lambda I, st, k, a: [(st, boolv(X.n[k]['kind'] == 'Comment'))],
            'is_pi': lambda I, st, k, a: [(st, boolv(X.n[k]['kind'] == 'PI'))],
            'tag_name': lambda I, st, k, a: [(st, ('t', 'xname', ('int', k)))],
            'has_tag_name': lambda I, st, k, a: [(st, boolv(el(k) and (lambda nm: (nm[0] is None or (X.n[k]['ns'] is not None and same(I, st, X.n[k]['ns'], nm[0]))) and same(I, st, X.n[k]['name'], nm[1]))(name_arg(I, st, a[1]))))],
            'attribute': lambda I, st, k, a: [(st, (lambda f: NONE if f is None else some(S(f[1])))(find_attr(I, st, k, name_arg(I, st, a[1]))))],
            'has_attribute': lambda I, st, k, a: [(st, boolv(find_attr(I, st, k, name_arg(I, st, a[1])) is not None))],
            'attribute_node': lambda I, st, k, a: [(st, (lambda f: NONE if f is None else some(ref(('t', 'xa', ('int', k), ('int', f[0])))))(find_attr(I, st, k, name_arg(I, st, a[1]))))],
            'attributes': lambda I, st, k, a: [(st, ref(('vec', tuple(('t', 'xa', ('int', k), ('int', j)) for j in range(len(X.n[k]['attrs']))))))],
            'text': lambda I, st, k, a: [(st, opt(text_of(k)))],
            'children': lambda I, st, k, a: it(st, X.n[k]['kids']),
            'descendants': lambda I, st, k, a: it(st, X.order(k)),
            'ancestors': lambda I, st, k, a: it(st, anc(k)),
            'prev_siblings': lambda I, st, k, a: it(st, sib(k, -1)),
            'next_siblings': lambda I, st, k, a: it(st, sib(k, 1)),
            'parent': lambda I, st, k, a: first(st, anc(k)[:1]),
            'parent_element': lambda I, st, k, a: first(st, [x for x in anc(k) if el(x)]),
            'prev_sibling': lambda I, st, k, a: first(st, sib(k, -1)),
            'next_sibling': lambda I, st, k, a: first(st, sib(k, 1)),
            'first_child': lambda I, st, k, a: first(st, X.n[k]['kids']),
            'last_child': lambda I, st, k, a: first(st, X.n[k]['kids'][::-1]),
            'first_element_child': lambda I, st, k, a: first(st, [x for x in X.n[k]['kids'] if el(x)]),
            'last_element_child': lambda I, st, k, a: first(st, [x for x in X.n[k]['kids'] if el(x)][::-1]),
            'has_children': lambda I, st, k, a: [(st, boolv(bool(X.n[k]['kids'])))],
            'has_siblings': lambda I, st, k, a: [(st, boolv(bool(sib(k, 1) or sib(k, -1))))],
        }
        def nmeth(f):
            return lambda I, st, inst, a: f(I, st, node(I, st, a[0]), a)
        AT = {
            'name': lambda e: S(e[1]), 'value': lambda e: S(e[2]), 'namespace': lambda e: opt(e[0]),
        }
        def parse(I, st, inst, a):
            r = [(st.copy(), ok(('t', 'xdoc')))]
            if cfg.get('xmlerr'): r.append((st.copy(), err(('sym', 'xmlerror'))))
            return r
        def stream_mut(I, st, inst, a):
            s = rd(I, st, a[0]); n = inst.path.split('::')[-1]
            args = tuple(deep(I, st, x) for x in a[1:])
            src = stream_src(s)
            if src is not None and src[0] == 'str' and src[1] in KEYWORDS and n in ('parse_number', 'parse_iri', 'parse_func_iri', 'parse_integer', 'parse_length', 'parse_angle'):
                wr(I, st, a[0], ('t', 'after', n, s) + args)
                return [(st, err(('sym', 'svgtypes-error')))]
            wr(I, st, a[0], ('t', 'after', n, s) + args)
            return [(st, ('t', 'call', n, s) + args)]
        def stream_ref(I, st, inst, a):
            n = inst.path.split('::')[-1]
            if n == 'at_end': return [(st, I.simp(st, ('t', 'at_end', deep(I, st, a[0]))))]
            return [(st, ('t', 'call', n) + tuple(deep(I, st, x) for x in a))]
        def path_next(I, st, inst, a):
            s = rd(I, st, a[0])
            tag = 'elem' if not (s[0] == 't' and s[1] == 'pathfail') else 'elem-after-error'
            src = s[2] if tag != 'elem' else s
            r = []
            if src[0] == 't' and src[1] == 'call' and src[-1][0] == 'str' and src[-1][1] in KEYWORDS:     # no path data at all
                if tag != 'elem': return [(st, NONE)]
                wr(I, st, a[0], ('t', 'pathfail', src)); return [(st, some(err(('t', 'patherr', src))))]
            s1 = st.copy(); r.append((s1, some(ok(('t', tag, src)))))
            s2 = st.copy(); wr(I, s2, a[0], ('t', 'pathfail', src)); r.append((s2, some(err(('t', 'patherr', src)))))
            s3 = st.copy(); r.append((s3, NONE))
            return r
        def push(I, st, inst, a):
            if a[1][0] == 't' and a[1][1] in ('elem', 'elem-after-error'):
                p = models.vecptr(I, st, a[0]); v = models.vecval(I, st, p)
                sg = ('seg', (a[1][1], a[1][2]))
                if sg not in v[1]: wr(I, st, p, ('vec', v[1] + (sg,)))
                return [(st, UNIT)]
            return None
        def decl_from(I, st, inst, a):
            v = strv(I, st, a[0])
            ds = X.styles.get(v) if X.styles else []     # a document without style sources of interest: no declarations
            if ds is None: raise Stop('style text %s' % str(v)[:80])
            return [(st, ('into', ('vec', tuple(P.rec(P.decl_ty, name=S(n), value=S(w)) for n, w in ds))))]
        def parse_more(I, st, inst, a):
            v = strv(I, st, a[1]); rs = X.styles.get(v) if X.styles else []
            if rs is None: raise Stop('style sheet text %s' % str(v)[:80])
            s = rd(I, st, a[0])
            fi = [i for i, (n, _) in enumerate(P.p.types[P.sheet_ty]['v'][0]['f']) if n == 'rules'][0]
            old = s[2][fi][1]
            new = tuple(P.rec(P.rule_ty, selector=P.selector(sel), declarations=('vec', tuple(P.rec(P.decl_ty, name=S(n), value=S(w)) for n, w in ds))) for sel, ds in rs)
            fs = list(s[2]); fs[fi] = ('vec', old + new)
            wr(I, st, a[0], ('adt', 0, tuple(fs)))
            st.ghost['sheets'] = st.ghost.get('sheets', ()) + (v,)
            return [(st, UNIT)]
        def sheet_new(I, st, inst, a):
            return [(st, P.rec(P.sheet_ty, rules=('vec', ())))]
        def sheet_parse(I, st, inst, a):
            o = st.fresh(); st.heap[o] = {'val': P.rec(P.sheet_ty, rules=('vec', ()))}
            q = ('ref', ('H', o), ())
            r = parse_more(I, st, inst, [q, a[0]])
            return [(st, rd(I, st, q))]
        def matches(I, st, inst, a):
            sel = deep(I, st, a[0]); n = deep(I, st, a[1])
            if sel[0] == 'adt': return None          # a structured selector: interpreted with the XmlNode callbacks
            while n[0] == 'adt' and len(n[2]) == 1: n = n[2][0]
            n = deep(I, st, n)
            want = cfg.get('matches')
            if want is not None:
                w = want(sel[2][1] if sel[0] == 't' and sel[1] == 'sel' else sel, n[2][1])
                if w is not None: return [(st, boolv(w))]
            return [(st, I.simp(st, ('t', 'matches', sel, n)))]
        def opmatch(I, st, inst, a):
            op = deep(I, st, a[0]); v = strv(I, st, a[1])
            if op[0] == 'adt' and v[0] == 'str': return [(st, boolv(op_matches(op[1], op[2][0][1] if op[2] else None, v[1])))]
            return [(st, I.simp(st, ('t', 'opmatch', op, v)))]
        def ts_default(I, st, inst, a): return [(st, I.simp(st, ('t', 'tsdefault', deep(I, st, a[0]))))]
        def keyword(I, st, inst, a):
            v = strv(I, st, a[0])
            if v[0] == 'str' and v[1] in KEYWORDS:
                if 'paint::Paint' in inst.path and v[1] in ('none', 'inherit', 'currentColor'):
                    return [(st, ok(('adt', ('none', 'inherit', 'currentColor').index(v[1]), ())))]
                if 'AspectRatio' in inst.path and v[1] == 'none': return [(st, ok(('t', 'aspect-none')))]
                return [(st, err(('sym', 'svgtypes-error')))]
            return [(st, ('t', 'call', inst.path, v))]
        def lderef(I, st, inst, a):
            v = deep(I, st, a[0])
            if v[0] == 'adt' and len(v[2]) == 1: return [(st, ref(v[2][0]))]
            return [(st, ref(('vec', (('seg', ('items', v)),))))]
        def f(inst):
            q = inst.path
            h = cfg.get('stub')
            if h is not None:
                r = h(inst)
                if r is not None: return r
            if inst.crate == 'roxmltree':
                n = q.split('::')[-1]
                if 'roxmltree::Node::' in q and n in N: return nmeth(N[n])
                if 'roxmltree::Attribute::' in q and n in AT: return lambda I, st, inst, a: [(st, AT[n](attr_of(I, st, a[0])))]
                if 'roxmltree::ExpandedName::' in q and n in ('name', 'namespace'):
                    def en(I, st, inst, a):
                        ns, nm = name_arg(I, st, a[0])
                        return [(st, nm if n == 'name' else opt(ns))]
                    return en
                if n == 'parse': return parse
                if q.endswith('Node as std::cmp::PartialEq>::eq') or ('roxmltree::Node<' in q and n == 'eq'): return lambda I, st, inst, a: [(st, boolv(node(I, st, a[0]) == node(I, st, a[1])))]
                if 'roxmltree::Document::' in q:
                    if n == 'root': return lambda I, st, inst, a: [(st, xn(0))]
                    if n == 'descendants': return lambda I, st, inst, a: it(st, X.order(0))
                    if n == 'root_element': return lambda I, st, inst, a: [(st, xn([k for k in X.n[0]['kids'] if el(k)][0]))]
                if q.endswith('Iterator>::next'): return models.m_next
                if q.endswith('Iterator>::next_back'): return models.m_next_back
            if inst.crate == 'svgtypes':
                if 'stream::Stream::' in q:
                    t = P.p.types[inst.ins[0]] if inst.ins else {}
                    return stream_mut if t.get('k') == 'ref' and t.get('m') else stream_ref
                if q.endswith('::from_str'): return keyword
                if 'PathParser' in q and q.endswith('Iterator>::next'): return path_next
                if q.endswith('Transform::is_default'): return ts_default
                if q.endswith('std::ops::Deref>::deref'): return lderef
            if inst.crate == 'simplecss':
                if 'DeclarationTokenizer' in q: return decl_from if q.endswith('::from') else models.m_next
                if q.endswith('StyleSheet::<\'a>::new'): return sheet_new
                if q.endswith('::parse_more'): return parse_more
                if q.endswith('StyleSheet::<\'a>::parse'): return sheet_parse
                if q.endswith('AttributeOperator::<\'_>::matches'): return opmatch
                if q.endswith('Combinator as std::cmp::PartialEq>::eq'): return lambda I, st, inst, a: [(st, boolv(deep(I, st, a[0]) == deep(I, st, a[1])))]
                if q.endswith('Selector::<\'a>::matches'): return matches
            if q == 'std::vec::Vec::<T, A>::capacity':
                return lambda I, st, inst, a: [(st, ('int', 16 if models.vecval(I, st, models.vecptr(I, st, a[0]))[1] else 0))]
            if q == 'std::vec::Vec::<T, A>::push':
                return lambda I, st, inst, a: (push(I, st, inst, a) or models.vec_push(I, st, inst, a))
            return None
        return f
    def interp(self, X, **cfg):
        return self.D.interp(dict(dict(keep_named=True, canon_after=600, merge_joins=False, vec_cap=400, taint_widen=True, max_steps=3000000), **(cfg.pop('opts', None) or {})), extra=self.extra(X, cfg))
    def run(self, X, st=None, **cfg):
        """[(outcome, interp)] of Document::from_str over the abstract document"""
        st = st or State(); keep = st.copy()
        X = X.renamed(self.enames, self.anames)
        I = self.interp(X, **dict(cfg))
        outs = I.run(self.p.roots['p_from_str'], [('sym', 'xmltext')], st)
        if any(o.kind == 'stuck' or o.state.taint for o in outs) and X.concrete_styles():
            # something in the style text itself is examined: additionally with an arbitrary fixed text
            I2 = self.interp(X, **dict(cfg))
            more = I2.run(self.p.roots['p_from_str'], [('sym', 'xmltext')], keep)
            for o in more: o.state.ghost['fixedtext'] = ('int', 1)
            outs = outs + more
        for o in outs:
            if o.kind == 'ret' and o.value[0] == 'adt' and o.value[1] == 0:
                o.state.heap['DOC'] = {'val': o.value[2][0]}
        return I, outs
