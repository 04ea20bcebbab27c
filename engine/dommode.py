"""Abstract DOM states: named nodes with exact tree links and exact link attributes, symbolic
payloads, and summarised segments for any number of unrelated attributes / linking nodes."""
from collections import Counter
from interp import *
import models
from dom import Layout, handle, unhandle, ref
from shape import Forest

LINKS = ('Link', 'FuncLink', 'Paint')

class Dom:
    def __init__(self, p):
        self.p = p
        self.F = Forest(p)
        self.L = Layout(p)
        self.doc_ty = p.adt('Document')[0]
        self.doc_f = {}
        for i, (n, ty) in enumerate(p.types[self.doc_ty]['v'][0]['f']):
            if ty == self.L.node_ty: self.doc_f['root'] = i
            elif p.types[ty].get('n', '').endswith('Slab'): self.doc_f['storage'] = i
        self.clone_insts = None
        self.tags = None       # None: fixed tags; 'id' / 'name': every element without an explicit tag has an unknown SVG / non-SVG tag
        self.small = None      # number of explicit elements standing for a summarised segment, or None
    # ---------------------------------------------------------------- building
    def new(self): return Builder(self)
    def interp(self, opts=None, extra=None, contracts=True):
        L = self.L
        def ex(inst):
            if extra is not None:
                h = extra(inst)
                if h is not None: return h
            # copies of attribute values are exact (established by C26)
            if contracts and inst.path.endswith('AttributeValue as std::clone::Clone>::clone'): return lambda I, st, i, a: [(st, models.rd(I, st, a[0]))]
            return None
        I = Interp(self.p, models.lookup(ex), dict(dict(widen_after=10**9, taint_widen=True, vec_cap=64), **(opts or {})))
        I.seg_hook = self.seg_hook
        return I
    def seg_hook(self, I, st, name):
        k = name[0]
        if k == 'attrs':      # ('attrs', owner, excluded names...): an attribute with another name and a non-link value
            out = []
            for kind in ('id', 'str'):
                s = st.copy()
                nm = s.sym(); v = s.sym()
                name_v = ('adt', self.L.qn['Id' if kind == 'id' else 'Name'], (nm,))
                for x in name[2:]:
                    self.distinct(s, name_v, x)
                I.exclude(s, ('t', 'discr', v, self.L.av_ty), [self.p.types[self.L.av_ty]['v'][self.L.av[l]]['d'] for l in LINKS])
                out.append((s, self.L.attr(name_v, v)))
            return out
        if k == 'nodes':      # ('nodes', ...): some other node
            o = st.fresh()
            st.heap[o] = {'val': ('sym', 'othernode'), 'bor': 0}
            return [(st, handle(o))]
        return None
    def distinct(self, st, a, b):
        """records that two attribute names differ"""
        if a[1] != b[1]: return
        x, y = a[2][0], b[2][0]
        if a[1] == self.L.qn['Id']:
            if x[0] == 'adt' and y[0] == 'adt': return
            dx = ('int', self.p.types[self.L.aid_ty]['v'][x[1]]['d']) if x[0] == 'adt' else ('t', 'discr', x, self.L.aid_ty)
            dy = ('int', self.p.types[self.L.aid_ty]['v'][y[1]]['d']) if y[0] == 'adt' else ('t', 'discr', y, self.L.aid_ty)
            if dx[0] == 'int': dx, dy = dy, dx
            if dy[0] == 'int': st.facts[dx] = ('!', frozenset({dy[1]}) | (st.facts[dx][1] if st.facts.get(dx, ('', 0))[0] == '!' else frozenset()))
            else:
                st.facts[('t', 'Eq') + tuple(sorted((dx, dy), key=repr))] = ('=', 0)
                fx = st.facts.get(dx)
                if fx is not None and fx[0] == '=': Interp.exclude(_noI(self.p), st, dy, [fx[1]])
                fy = st.facts.get(dy)
                if fy is not None and fy[0] == '=': Interp.exclude(_noI(self.p), st, dx, [fy[1]])
        else:
            if x[0] == 'str' and y[0] == 'str': return
            st.facts[('t', 'streq') + tuple(sorted((x, y), key=repr))] = ('=', 0)
    # ---------------------------------------------------------------- reading back
    def snap(self, st, extra=()):
        """{node: dict} of every node cell, kids/attrs as lists"""
        L = self.L; r = {}
        cells = [n for n, h in st.heap.items() if h['val'][0] == 'adt' and len(h['val'][2]) == len(L.tfields) and h['val'][2][L.data_i][0] == 'adt']
        for n in cells:
            v = st.heap[n]['val']; d = v[2][L.data_i]
            e = {k: d[2][i] for k, i in L.f.items()}
            for role, i in self.F.roles.items():
                x = v[2][i]
                e[role] = None if x == NONE else (x[2][0][1] if x[0] == 'adt' and x[2] and x[2][0][0] in ('rc', 'weak') else x)
            at = e['attrs']
            while at[0] == 'adt' and len(at[2]) == 1: at = at[2][0]
            e['attrs'] = at[1] if at[0] == 'vec' else (('?', at),)
            e['linked'] = e['linked'][1] if e['linked'][0] == 'vec' else (('?', e['linked']),)
            e['bor'] = st.heap[n].get('bor', 0)
            r[n] = e
        for n, e in r.items():
            kids = []; c = e['first']; seen = set()
            while c is not None and c in r and c not in seen:
                seen.add(c); kids.append(c); c = r[c]['next']
            e['kids'] = kids
        return r
    def lname(self, attr): return attr[2][self.L.attr_f['name']]
    def lval(self, attr): return attr[2][self.L.attr_f['value']]
    def link_target(self, v):
        if v[0] == 'adt' and self.L.avn[v[1]] in LINKS: return unhandle(v[2][0])
        return None

class _noI:
    """just enough of an interpreter to use exclude()"""
    def __init__(self, p): self.p = p
    def simp(self, st, v):
        f = st.facts.get(v)
        return ('int', f[1]) if f is not None and f[0] == '=' else v
    def assume(self, st, v, n):
        st.facts[v] = ('=', n); return True

class Builder:
    def __init__(self, D):
        self.D = D; self.n = {}; self.order = []; self.facts = []
        self.sy = 0; self.plain = []; self.users = False
    def node(self, name, kind='Element', attrs=(), linked=(), kids=(), id=None, tag=None, text=None, key='auto'):
        self.n[name] = dict(kind=kind, attrs=list(attrs), linked=list(linked), kids=list(kids), id=id, tag=tag, text=text, key=key)
        self.order.append(name)
        return name
    def link(self, kind, target, fb=None):
        L = self.D.L
        if kind == 'Paint': return L.val('Paint', handle(target), fb if fb is not None else NONE)
        return L.val(kind, handle(target))
    def state(self, links=True):
        """links=True: fill linked lists of targets from the link attributes (the bookkeeping invariant)"""
        D, L = self.D, self.D.L
        if D.small is not None: self.expand(D.small)
        st = State()
        parent = {}; sib = {}
        for n, e in self.n.items():
            k = e['kids']
            for i, c in enumerate(k):
                parent[c] = n; sib[c] = (k[i - 1] if i else None, k[i + 1] if i + 1 < len(k) else None)
        extra = {n: [] for n in self.n}
        for n, e in self.n.items():
            for a in e['attrs']:
                if a[0] == 'seg': continue
                t = D.link_target(D.lval(a))
                if t is not None and t in extra and not (n == 'O' and self.users): extra[t].append(handle(n))
        entries = []
        for i, n in enumerate(self.order):
            e = self.n[n]
            key = ('int', i + 1)
            if e['key'] is None: kv = NONE
            else: kv = some(key); entries.append(adt(0, key, handle(n)))
            linked = list(e['linked'])
            if links:
                # explicit lists: '*' marks where the links of the other nodes go, in order
                if '*' in linked:
                    j = linked.index('*'); linked[j:j + 1] = extra[n]
                else: linked += extra[n]
            if e['tag'] is None and e['kind'] == 'Element' and D.tags is not None:
                e['tag'] = ('adt', L.qn['Id' if D.tags == 'id' else 'Name'], (('sym', 'tag' + n),))
            if e['tag'] is not None and e['tag'][1] == L.qn['Name'] and e['tag'][2][0][0] == 'sym': st.facts[('t', 'isempty', e['tag'][2][0])] = ('=', 0)
            tag = e['tag'] if e['tag'] is not None else ('adt', L.qn['Id'], (('adt', L.eid['Rect'], ()),)) if e['kind'] == 'Element' else ('adt', L.qn['Name'], (('str', ''),))
            ident = e['id'] if e['id'] is not None else (('str', 'id' + n) if e['kind'] == 'Element' else ('str', ''))
            cell = L.cell(type=('adt', L.nt[e['kind']], ()), tag=tag, attrs=('adt', 0, (('vec', tuple(e['attrs'])),)), linked=('vec', tuple(linked)), key=kv,
                          id=ident, text=e['text'] if e['text'] is not None else (('str', '') if e['kind'] in ('Element', 'Root') else ('sym', 'text' + n)))
            fs = list(cell['val'][2])
            for role, i2 in D.F.roles.items():
                t = None
                if role == 'parent': t = parent.get(n)
                elif role == 'prev': t = sib.get(n, (None, None))[0]
                elif role == 'next': t = sib.get(n, (None, None))[1]
                elif e['kids']: t = e['kids'][0] if role == 'first' else e['kids'][-1]
                fs[i2] = NONE if t is None else some((D.F.link_kind(i2), t))
            st.heap[n] = {'val': ('adt', 0, tuple(fs)), 'bor': 0}
        for a, b in self.facts: D.distinct(st, a, b)
        for v in self.plain: st.facts[('t', 'discr', v, L.av_ty)] = ('!', frozenset(D.p.types[L.av_ty]['v'][L.av[l]]['d'] for l in LINKS))
        if 'ROOT' in self.n:
            fs = [None] * len(D.p.types[D.doc_ty]['v'][0]['f'])
            fs[D.doc_f['root']] = handle('ROOT'); fs[D.doc_f['storage']] = ('vec', tuple(entries))
            st.heap['DOC'] = {'val': ('adt', 0, tuple(x if x is not None else ('sym', 'docfield') for x in fs))}
            st.ghost['slabkey'] = len(self.order) + 1
        return st
    def distinct(self, a, b): self.facts.append((a, b))
    def expand(self, k):
        """replaces every summarised segment by k explicit elements"""
        D, L = self.D, self.D.L; c = 0; users = []
        for n in list(self.order):
            e = self.n[n]
            out = []; mine = []
            for a in e['attrs']:
                if a[0] != 'seg': out.append(a); continue
                for j in range(k):
                    c += 1
                    nm = ('adt', L.qn['Id' if j % 2 else 'Name'], (('sym', 'oname%d' % c),)); v = ('sym', 'oval%d' % c)
                    for x in a[1][2:]: self.distinct(nm, x)
                    for x in mine: self.distinct(nm, x)
                    mine.append(nm); self.plain.append(v)
                    out.append(L.attr(nm, v))
            e['attrs'] = out
            out = []
            for h in e['linked']:
                if h == '*' or h[0] != 'seg': out.append(h); continue
                for j in range(k):
                    c += 1; users.append(L.attr(('adt', L.qn['Name'], (('str', 'user%d' % c),)), self.link('FuncLink', n))); out.append(handle('O'))
            e['linked'] = out
        if users:
            self.node('O', attrs=users); self.users = True

DOC = ('ref', ('H', 'DOC'), ())
def mref(n):
    """&mut Node: the handle lives in an anonymous cell"""
    return ref(handle(n))
def counts(xs): return Counter(xs)
