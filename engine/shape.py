"""Shape domain for tree.rs: partially materialised well-formed forests.

A node 'N<k>' is a heap cell.  Its link fields start as ('lazy', node, role): "whatever the
well-formed pre-state holds there".  Reading one splits the abstract state over every value the
well-formedness rules allow (absent, any node met so far, a node not met yet); the rules are
closed after each choice, so a state always describes a non-empty set of well-formed forests of
unbounded size.
"""
from interp import *
import models
ROLES = ('parent', 'first', 'last', 'prev', 'next')
ACC = {'parent': 't_parent', 'first': 't_first_child', 'last': 't_last_child', 'prev': 't_previous_sibling', 'next': 't_next_sibling'}

class Contra(Exception): pass
class Undecided(Exception):
    def __init__(self, key): self.key = key

def close(pre, nodes):
    """closes a partial forest under the well-formedness rules; raises Contra"""
    work = True
    def put(n, r, v):
        nonlocal work
        k = (n, r)
        if k in pre:
            if pre[k] != v: raise Contra()
        else:
            pre[k] = v; work = True
    while work:
        work = False
        for (n, r), v in list(pre.items()):
            if v is None:
                if r == 'first': put(n, 'last', None)
                elif r == 'last': put(n, 'first', None)
                elif r == 'parent': put(n, 'prev', None); put(n, 'next', None)
                elif r == 'prev':
                    p = pre.get((n, 'parent'))
                    if p is not None: put(p, 'first', n)
                elif r == 'next':
                    p = pre.get((n, 'parent'))
                    if p is not None: put(p, 'last', n)
                continue
            if r == 'next':
                put(v, 'prev', n)
                for a, b in ((n, v), (v, n)):
                    if (a, 'parent') in pre:
                        if pre[(a, 'parent')] is None: raise Contra()
                        put(b, 'parent', pre[(a, 'parent')])
            elif r == 'prev': put(v, 'next', n)
            elif r == 'first': put(v, 'parent', n); put(v, 'prev', None)
            elif r == 'last': put(v, 'parent', n); put(v, 'next', None)
            elif r == 'parent':
                if pre.get((v, 'first'), 0) is None or pre.get((v, 'last'), 0) is None: raise Contra()
        # acyclicity
        for r in ('parent', 'next'):
            for n in nodes:
                seen = {n}; m = pre.get((n, r))
                while m is not None:
                    if m in seen: raise Contra()
                    seen.add(m); m = pre.get((m, r))
        # a completely known child list contains every child
        for p in nodes:
            c = pre.get((p, 'first'))
            if c is None: continue
            chain = [c]
            while pre.get((chain[-1], 'next'), None) is not None: chain.append(pre[(chain[-1], 'next')])
            complete = pre.get((chain[-1], 'next'), 0) is None
            if complete:
                for n in nodes:
                    if pre.get((n, 'parent')) == p and n not in chain: raise Contra()
    return pre

class Forest:
    """mode-T analysis context: which field of NodeData plays which role"""
    def __init__(self, prog, stats=None):
        self.p = prog
        self.node_ty = [i for i in prog.adt('Node')][0]
        self.rc_ty = prog.types[self.node_ty]['v'][0]['f'][0][1]
        # the data struct: argument of RefCell inside Rc
        cell = prog.types[self.rc_ty]['a'][0]
        self.nd_ty = prog.types[cell]['a'][0]
        self.fields = prog.types[self.nd_ty]['v'][0]['f']
        self.n_fields = len(self.fields)
        self.roles = {}
        self.infer_roles()
        self.extra = [i for i, (nm, ty) in enumerate(self.fields) if i not in self.roles.values() and self.is_link(ty)]
    def is_link(self, ty):
        t = self.p.types[ty]
        if t['k'] != 'adt' or not t['n'].endswith('Option'): return False
        u = self.p.types[t['a'][0]]
        return u['k'] == 'adt' and u['n'].split('::')[-1] in ('Rc', 'Weak')
    def link_kind(self, i):
        t = self.p.types[self.fields[i][1]]
        return 'rc' if self.p.types[t['a'][0]]['n'].endswith('Rc') else 'weak'
    def infer_roles(self):
        """role of a field := the field whose target the public accessor returns"""
        for role, acc in ACC.items():
            st = State()
            fs = []
            for i, (nm, ty) in enumerate(self.fields):
                if self.is_link(ty):
                    st.heap['M%d' % i] = {'val': ('sym', 'm'), 'bor': 0}
                    fs.append(some((self.link_kind(i), 'M%d' % i)))
                else:
                    fs.append(('sym', 'data'))
            st.heap['N0'] = {'val': ('adt', 0, tuple(fs)), 'bor': 0}
            I = Interp(self.p, models.lookup())
            outs = I.run(self.p.roots[acc], [('ref', ('C', self.handle('N0')), ())], st)
            hits = set()
            for o in outs:
                if o.kind == 'ret' and o.value[0] == 'adt' and o.value[1] == 1:
                    h = self.unhandle(o.value[2][0])
                    if h and h.startswith('M'): hits.add(int(h[1:]))
            if len(hits) != 1: raise Stop('role of %s not found' % acc)
            self.roles[role] = hits.pop()
        if len(set(self.roles.values())) != 5: raise Stop('ambiguous link roles')
        self.role_of = {v: k for k, v in self.roles.items()}
    def handle(self, n): return ('adt', 0, (('rc', n),))
    def unhandle(self, v):
        if v[0] == 'adt' and len(v[2]) == 1 and v[2][0][0] == 'rc': return v[2][0][1]
        return None
    def cell(self, n):
        fs = []
        for i, (nm, ty) in enumerate(self.fields):
            if i in self.role_of: fs.append(('lazy', n, self.role_of[i]))
            elif self.is_link(ty): fs.append(('lazy', n, 'extra%d' % i))
            else: fs.append(('sym', 'data_' + n))
        return {'val': ('adt', 0, tuple(fs)), 'bor': 0}
    def add_node(self, st, name=None):
        if name is None:
            k = st.ghost.get('#', 0)
            name = 'N%d' % k
            while name in st.heap: k += 1; name = 'N%d' % k
            st.ghost['#'] = k + 1
        st.heap[name] = self.cell(name)
        return name
    # --- pre-state
    def pre(self, st): return dict(st.ghost.get('pre', ()))
    def set_pre(self, st, pre):
        st.ghost['pre'] = tuple(sorted(pre.items(), key=repr))
        # fields that still hold their pre-state value become concrete
        for n, h in st.heap.items():
            if not (isinstance(n, str) and n.startswith('N')): continue
            v = h['val']
            if v[0] != 'adt': continue
            fs = list(v[2]); ch = False
            for i, x in enumerate(fs):
                if x[0] == 'lazy' and (x[1], x[2]) in pre:
                    t = pre[(x[1], x[2])]
                    fs[i] = NONE if t is None else some((self.link_kind(i), t)); ch = True
            if ch: h['val'] = ('adt', v[1], tuple(fs))
    def nodes(self, st): return sorted(n for n in st.heap if isinstance(n, str) and n.startswith('N'))
    def decide(self, st, n, role, cap=9):
        """all states in which pre-state field (n, role) is decided"""
        pre = self.pre(st)
        if (n, role) in pre: return [st]
        if role.startswith('extra'):
            st.taint = st.taint | {'link field outside the public accessors: %s' % self.fields[int(role[5:])][0]}
            s = st.copy(); p = self.pre(s); p[(n, role)] = None; self.set_pre(s, p)
            r = [s]
            for m in self.nodes(st):
                s = st.copy(); p = self.pre(s); p[(n, role)] = m; self.set_pre(s, p); r.append(s)
            return r
        out = []
        ns = self.nodes(st)
        cands = [None] + ns + (['+'] if len(ns) < cap else [])
        for c in cands:
            s = st.copy()
            if c == '+': c = self.add_node(s)
            p = self.pre(s); p[(n, role)] = c
            try: close(p, self.nodes(s))
            except Contra: continue
            self.set_pre(s, p)
            out.append(s)
        if len(ns) >= cap: self.capped = getattr(self, 'capped', 0) + 1
        return out
    def materialize(self, I, st, loc, proj, lazy):
        return self.decide(st, lazy[1], lazy[2], self.cap)
    cap = 9
    def interp(self, opts=None):
        I = Interp(self.p, models.lookup(), opts)
        I.materialize = self.materialize
        return I
    # --- post-state
    def post(self, st, n, role):
        """('=', target|None) or ('pre', n, role) if the field still holds an undecided pre-state value"""
        v = st.heap[n]['val']
        if v[0] != 'adt': return ('?',)
        x = v[2][self.roles[role]]
        if x[0] == 'lazy': return ('pre', x[1], x[2])
        if x == NONE: return ('=', None)
        if x[0] == 'adt' and x[1] == 1 and x[2][0][0] in ('rc', 'weak'): return ('=', x[2][0][1])
        return ('?',)

class Spec:
    """field-level oracle: pre-state plus a list of overwritten fields"""
    def __init__(self, F, st):
        self.prem = F.pre(st); self.o = {}
    def get(self, n, r):
        if (n, r) in self.o: return self.o[(n, r)]
        if (n, r) not in self.prem: raise Undecided((n, r))
        return self.prem[(n, r)]
    def set(self, n, r, v): self.o[(n, r)] = v
    def detach(self, x):
        p, a, b = self.get(x, 'parent'), self.get(x, 'prev'), self.get(x, 'next')
        if p is None: return
        if a is None: self.set(p, 'first', b)
        else: self.set(a, 'next', b)
        if b is None: self.set(p, 'last', a)
        else: self.set(b, 'prev', a)
        for r in ('parent', 'prev', 'next'): self.set(x, r, None)
    def insert(self, p, a, x, b):
        """x becomes the child of p between a and b (adjacent or absent)"""
        self.set(x, 'parent', p); self.set(x, 'prev', a); self.set(x, 'next', b)
        if a is None: self.set(p, 'first', x)
        else: self.set(a, 'next', x)
        if b is None: self.set(p, 'last', x)
        else: self.set(b, 'prev', x)
    def is_anc(self, a, n):
        """a is an ancestor-or-self of n in the decided part of the pre-state"""
        while n is not None:
            if n == a: return True
            n = self.prem.get((n, 'parent'))
        return False

def spec_append(S, p, x):
    S.detach(x); S.insert(p, S.get(p, 'last'), x, None)
def spec_prepend(S, p, x):
    S.detach(x); S.insert(p, None, x, S.get(p, 'first'))
def spec_after(S, s, x):
    S.detach(x); S.insert(S.get(s, 'parent'), s, x, S.get(s, 'next'))
def spec_before(S, s, x):
    S.detach(x); S.insert(S.get(s, 'parent'), S.get(s, 'prev'), x, s)
