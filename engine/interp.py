"""Abstract interpreter over exported MIR.

Values are immutable tuples:
  ('int', n)            integer / bool / char constant
  ('flt', x)            float constant
  ('str', s)            string constant contents (a `&str` *is* its contents)
  ('adt', v, fields)    struct / tuple / closure (v == 0) or enum variant v
  ('ref', loc, proj)    pointer to a place
  ('fn', i)             function item / fn pointer
  ('rc', o) ('weak', o) handle of heap cell o
  ('vec', items)        vector / array / slice contents; an item ('seg', name) stands for
                        zero or more unknown elements
  ('guard', kind, o, ref)  RefCell guard
  ('sym', id)           unknown value
  ('t', op, ...)        uninterpreted term over values
  ('uninit',)           moved-out or not yet written

The analysis is a worklist fixpoint over abstract states.  States meeting at the same
program point (same call string) are compared after garbage collection and canonical
renaming; equal ones are merged, loop-head integers that keep changing are widened.
"""
import time, struct
import sys, itertools
from mir import Program, succs

UNINIT = ('uninit',)
UNIT = ('adt', 0, ())
TRUE = ('int', 1)
FALSE = ('int', 0)
NONE = ('adt', 0, ())

def some(v): return ('adt', 1, (v,))
def ok(v): return ('adt', 0, (v,))
def err(v): return ('adt', 1, (v,))
def boolv(b): return TRUE if b else FALSE
def adt(v, *f): return ('adt', v, tuple(f))
def is_opaque(v): return v[0] in ('sym', 't')

# library types with an abstract representation: code that builds one field by field is outside the abstraction
CMPOPS = ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge')
OPAQUE = {'std::string::String', 'std::vec::Vec', 'std::rc::Rc', 'std::rc::Weak', 'std::cell::RefCell', 'std::cell::Ref', 'std::cell::RefMut', 'std::slice::Iter', 'std::slice::IterMut',
          'std::vec::IntoIter', 'std::vec::Drain', 'slab::Slab', 'std::fmt::Arguments', 'std::fmt::Formatter', 'std::boxed::Box', 'std::array::IntoIter'}

class Frame:
    __slots__ = ('inst', 'bb', 'locals', 'dest', 'target', 'cont', 'site', 'si')
    def __init__(self, inst, dest, target, cont=None, site=None):
        self.inst = inst; self.bb = 0; self.locals = {}; self.si = -1
        self.dest = dest; self.target = target; self.cont = cont; self.site = site
    def copy(self):
        f = Frame(self.inst, self.dest, self.target, self.cont, self.site)
        f.bb = self.bb; f.locals = dict(self.locals); f.si = self.si
        return f

class State:
    __slots__ = ('frames', 'heap', 'facts', 'ev', 'next', 'taint', 'ghost', 'trail', 'dead')
    def __init__(self):
        self.frames = []; self.heap = {}; self.facts = {}; self.ev = ()
        self.next = 0; self.taint = frozenset(); self.ghost = {}; self.trail = ()
        self.dead = False
    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = {k: dict(v) if isinstance(v, dict) else v for k, v in self.heap.items()}
        s.facts = dict(self.facts); s.ev = self.ev; s.next = self.next
        s.taint = self.taint; s.ghost = dict(self.ghost); s.trail = self.trail
        return s
    def fresh(self):
        self.next += 1
        return self.next
    def sym(self):
        return ('sym', self.fresh())

class Stop(Exception):
    """Analysis cannot continue (unmodelled construct); the path is undecided."""

class Outcome:
    """End of a path of the entry function."""
    __slots__ = ('kind', 'state', 'value', 'site', 'msg')
    def __init__(self, kind, state, value=None, site=None, msg=None):
        self.kind = kind; self.state = state; self.value = value; self.site = site; self.msg = msg

LIMITS = dict(deadline=None, run=120, rss=2500)     # seconds since the epoch, seconds per analysed entry, MB per process
def budget(t0):
    """why the analysis has to stop here, if it has to (an undecided obligation, never an alarm)"""
    now = time.time()
    if LIMITS['deadline'] and now > LIMITS['deadline']: return 'time budget of the check'
    if now - t0 > LIMITS['run']: return 'time budget'
    with open('/proc/self/statm') as f: rss = int(f.read().split()[1]) * 4096 >> 20
    if rss > LIMITS['rss']: return 'memory budget'
    return None
class Interp:
    def __init__(self, prog, models, opts=None):
        self.p = prog
        self.models = models          # callable(inst) -> handler or None
        self.o = dict(max_steps=400000, widen_after=8, max_depth=60, opaque_crates=('svgtypes', 'log'))
        if opts: self.o.update(opts)
        self._mcache = {}
        self.visits = {}
        self.stats = dict(steps=0, states=0, functions=set(), calls=0, merged=0, opaque=set(), undecided=[])
        self.materialize = None       # hook(st, lazyvalue) -> [(st, value)]
        self.observers = []           # hook(interp, st, inst, args) at calls
        self.on_switch = None

    # ------------------------------------------------------------------ values
    def const(self, c):
        """decode exported constant ['c', ty, val] | ['z', ty]"""
        if c[0] == 'z':
            t = self.p.types[c[1]]
            if t['k'] == 'fndef':
                return ('fn', t['i'])
            return UNIT
        return self.cval(c[2])
    def cval(self, v):
        k = v[0]
        if k == 'i': return ('int', v[1])
        if k == 's': return ('str', v[1])
        if k == 'f': return ('flt', float(v[1].replace('inf', 'inf')))
        if k == 'v': return ('adt', v[1], tuple(self.cval(x) for x in v[2]))
        if k == 'r':
            x = self.cval(v[1])
            if x[0] == 'str': return x
            n = self.p.__dict__.setdefault('kidx', {}).setdefault(x, len(self.p.__dict__.setdefault('ktab', [])))
            if n == len(self.p.ktab): self.p.ktab.append(x)
            return ('ref', ('K', n), ())
        if k == 'a': return ('vec', tuple(self.cval(x) for x in v[1]))
        if k == 'static': return ('ref', ('S', v[1]), ())
        if k == 'fnptr': return ('fn', v[1])
        return ('t', 'const?')
    def field(self, base, v, i):
        """read field i of variant v of a value"""
        k = base[0]
        if k == 'adt':
            if base[1] != v and v is not None:
                raise Stop('downcast mismatch')
            if i < len(base[2]): return base[2][i]
            raise Stop('field %d of %r' % (i, base))
        if k in ('sym', 't'):
            return ('t', '.', base, v or 0, i)
        if k == 'lazy':
            return ('t', '.', base, v or 0, i)
        raise Stop('field of %s' % k)
    def root_get(self, st, loc):
        k = loc[0]
        if k == 'L':
            return st.frames[loc[1]].locals.get(loc[2], UNINIT)
        if k == 'H':
            return st.heap[loc[1]]['val']
        if k == 'K': return self.p.ktab[loc[1]]
        if k == 'C': return loc[1]
        if k == 'V': return loc[1]
        if k == 'P':
            if loc[1][0] == 't' and loc[1][1] == 'bytes' and loc[1][2][0] == 'str':
                return ('vec', tuple(('int', b) for b in loc[1][2][1].encode()))
            h = st.heap.get(loc)
            return h['val'] if h is not None else ('t', '*', loc[1])
        if k == 'S':
            s = self.p.statics.get(loc[1])
            if s is None: raise Stop('static %s' % loc[1])
            c = self.p.__dict__.setdefault('scache', {})
            if loc[1] not in c: c[loc[1]] = self.cval(s[1])
            return c[loc[1]]
        raise Stop('loc %r' % (loc,))
    def root_set(self, st, loc, val):
        k = loc[0]
        if k == 'L':
            st.frames[loc[1]].locals[loc[2]] = val
        elif k == 'H':
            if st.heap[loc[1]].get('tmp') and val != UNINIT and val != st.heap[loc[1]]['val']:
                st.ghost['segwrite'] = 1        # an element of a summarised part was modified
            st.heap[loc[1]]['val'] = val
        elif k == 'P':
            st.heap[loc] = {'val': val}
        else:
            raise Stop('write to %r' % (loc,))
    def proj_get(self, st, val, proj):
        for e in proj:
            if e[0] == 'f':
                val = self.field(val, e[2], e[1])
            elif e[0] == 'e':
                val = self.elem_get(st, val, e)
            else:
                raise Stop('proj %r' % (e,))
        return val
    def elem_get(self, st, val, e):
        if val[0] == 'vec':
            it = val[1]
            if e[1] >= len(it): raise Stop('elem oob')
            x = it[e[1]]
            if x[0] == 'seg':
                return ('t', 'elem', x[1], e[2] if len(e) > 2 else 0)
            return x
        if is_opaque(val):
            return ('t', 'idx', val, ('int', e[1]))
        raise Stop('elem of %s' % val[0])
    def read(self, st, loc, proj):
        return self.proj_get(st, self.root_get(st, loc), proj)
    def update(self, st, val, proj, new):
        if not proj: return new
        e = proj[0]
        if e[0] == 'f':
            i, v, ty = e[1], e[2], e[3]
            if val[0] in ('sym', 't', 'lazy') or (val[0] == 'uninit'):
                val = self.expand(val, ty, v)
            if val[0] != 'adt': raise Stop('update of %s' % val[0])
            fs = list(val[2])
            while len(fs) <= i: fs.append(UNINIT)
            fs[i] = self.update(st, fs[i], proj[1:], new)
            return ('adt', val[1] if v is None else v, tuple(fs))
        if e[0] == 'e':
            if val[0] == 'vec':
                it = list(val[1])
                if it[e[1]][0] == 'seg':
                    return val    # weak update of a summarised element
                it[e[1]] = self.update(st, it[e[1]], proj[1:], new)
                return ('vec', tuple(it))
            if is_opaque(val): return ('t', 'havoc', st.sym())
        raise Stop('update proj %r' % (e,))
    def expand(self, val, ty, v):
        t = self.p.types[ty]
        if t['k'] == 'adt':
            n = len(t['v'][v or 0]['f'])
        elif t['k'] in ('tuple', 'closure'):
            n = len(t['f'])
        else:
            raise Stop('expand %s' % t['k'])
        if val[0] == 'uninit':
            return ('adt', v or 0, tuple(UNINIT for _ in range(n)))
        return ('adt', v or 0, tuple(('t', '.', val, v or 0, i) for i in range(n)))
    def write(self, st, loc, proj, new):
        if not proj:
            self.root_set(st, loc, new)
        else:
            self.root_set(st, loc, self.update(st, self.root_get(st, loc), proj, new))

    def deref_ptr(self, st, v):
        """pointer value -> (loc, proj)"""
        k = v[0]
        if k == 'ref': return v[1], v[2]
        if k in ('sym', 't'): return ('P', v), ()
        if k == 'str': return ('V', v), ()
        if k == 'rc': return ('H', v[1]), ()
        if k == 'box': return ('H', v[1]), ()
        if k == 'lazy': raise Stop('deref of lazy')
        raise Stop('deref of %s' % k)
    def addr(self, loc, proj):
        """the pointer to a place"""
        if loc[0] == 'P' and not proj: return loc[1]
        if loc[0] == 'V' and not proj: return loc[1]
        return ('ref', loc, proj)

    # place -> (loc, proj, ty)
    def place(self, st, pl):
        depth = len(st.frames) - 1
        f = st.frames[-1]
        loc = ('L', depth, pl[0]); proj = (); ty = f.inst.body.locals[pl[0]]
        var = None
        for e in pl[1]:
            if e == '*':
                v = self.read(st, loc, proj)
                if v[0] == 'lazy':
                    raise NeedMaterialize(loc, proj, v)
                loc, proj = self.deref_ptr(st, v)
                t = self.p.types[ty]
                if t['k'] in ('ref', 'ptr'): ty = t['e']
                elif t['k'] == 'adt' and t['a']: ty = t['a'][0]
                var = None
            elif e[0] == 'f':
                proj = proj + (('f', e[1], var, ty),); ty = e[2]; var = None
            elif e[0] == 'd':
                var = e[1]
            elif e[0] == 'i':
                iv = self.simp(st, f.locals.get(e[1], UNINIT))
                base = self.read(st, loc, proj)
                if iv[0] == 'int' and base[0] == 'vec' and not any(x[0] == 'seg' for x in base[1][:iv[1]+1]):
                    proj = proj + (('e', iv[1]),)
                else:
                    loc, proj = ('P', ('t', 'idxp', self.addr(loc, proj), iv)), ()
                ty = self.p.types[ty].get('e', ty)
            elif e[0] == 'c':
                base = self.read(st, loc, proj)
                if base[0] == 'vec' and not any(x[0] == 'seg' for x in base[1]):
                    n = len(base[1]) - e[1] if e[2] else e[1]
                    proj = proj + (('e', n),)
                else:
                    loc, proj = ('P', ('t', 'idxp', self.addr(loc, proj), ('int', e[1]), ('int', int(e[2])))), ()
                ty = self.p.types[ty].get('e', ty)
            elif e[0] == 'o':
                ty = e[1]
            else:
                raise Stop('place elem %r' % (e,))
        return loc, proj, ty, var

    def operand(self, st, o):
        k = o[0]
        if k == 'k': return self.const(o[1])
        if k == 'rc': return FALSE
        loc, proj, ty, var = self.place(st, o[1])
        v = self.read(st, loc, proj)
        if v[0] == 'lazy':
            raise NeedMaterialize(loc, proj, v)
        if k == 'mv' and loc[0] in ('L', 'H') and v[0] not in ('fn', 'int', 'flt'):
            self.write(st, loc, proj, UNINIT)
        return v

    # ------------------------------------------------------------------ facts
    def simp(self, st, v):
        """normalise a scalar with the facts of the state"""
        if v[0] not in ('sym', 't'): return v
        f = st.facts.get(v)
        if f is not None and f[0] == '=': return ('int', f[1])
        if v[0] == 't':
            op = v[1]
            if op == 'discr':
                x = v[2]
                x = self.resolve(st, x)
                if x[0] == 'adt': return ('int', self.discr_of(v[3], x[1]))
                if x is not v[2]:
                    v2 = ('t', 'discr', x, v[3])
                    f = st.facts.get(v2)
                    if f is not None and f[0] == '=': return ('int', f[1])
                    return v2
            elif op in ('Eq', 'Ne'):
                a = self.simp(st, v[2]); b = self.simp(st, v[3])
                r = self.eq(st, a, b)
                if r is not None: return boolv(r == (op == 'Eq'))
            elif op in ('Lt', 'Le', 'Gt', 'Ge'):
                a = self.simp(st, v[2]); b = self.simp(st, v[3])
                if a[0] == b[0] and a[0] in ('int', 'flt'):
                    return boolv(CMP[op](a[1], b[1]))
                if op in ('Gt', 'Ge'): a, b = b, a
                ua, lb_, la, ub_ = self.ub(a), self.lb(b), self.lb(a), self.ub(b)
                if op in ('Lt', 'Gt'):
                    if ua is not None and lb_ is not None and ua < lb_: return TRUE
                    if la is not None and ub_ is not None and la >= ub_: return FALSE
                else:
                    if ua is not None and lb_ is not None and ua <= lb_: return TRUE
                    if la is not None and ub_ is not None and la > ub_: return FALSE
            elif op == 'Not':
                a = self.simp(st, v[2])
                if a[0] == 'int': return boolv(not a[1])
        return v
    def ub(self, v):
        """upper bound of an unsigned term (interval domain), or None"""
        if v[0] == 'int': return v[1] if v[1] >= 0 else None
        if v[0] != 't': return None
        if v[1] == 'Rem' and v[3][0] == 'int' and v[3][1] > 0: return v[3][1] - 1
        if v[1] == 'BitAnd':
            c = [x[1] for x in v[2:4] if x[0] == 'int' and x[1] >= 0]
            return min(c) if c else None
        if v[1] == 'cast' and self.p.types[v[3]]['k'] == 'uint':
            u = self.ub(v[2]); m = (1 << 8 * self.p.types[v[3]]['b']) - 1
            return u if u is not None and u <= m else m
        return None
    def lb(self, v):
        """lower bound of a term, or None"""
        if v[0] == 'int': return v[1]
        if v[0] == 't' and v[1] == 'len' and v[2][0] == 'vec': return sum(1 for x in v[2][1] if x[0] != 'seg')
        return None
    def mixed_len(self, v, n=4):
        """does the scalar depend on the length of a sequence with both explicit and summarised elements?"""
        if v[0] != 't' or not n: return False
        if v[1] == 'len': return v[2][0] == 'vec' and any(x[0] != 'seg' for x in v[2][1])
        return any(isinstance(x, tuple) and x and self.mixed_len(x, n - 1) for x in v[2:])
    def resolve(self, st, x):
        f = st.facts.get(('val', x))
        return f if f is not None else x
    def eq(self, st, a, b):
        if a == b and a[0] != 'flt': return True
        if a[0] == 'int' and b[0] == 'int': return a[1] == b[1]
        if a[0] == 'flt' and b[0] == 'flt': return a[1] == b[1]
        if a[0] == 'int': a, b = b, a
        if b[0] == 'int' and a[0] in ('sym', 't'):
            f = st.facts.get(a)
            if f is not None:
                if f[0] == '=': return f[1] == b[1]
                if b[1] in f[1]: return False
            l = self.lb(a)
            if l is not None and b[1] < l: return False
        if a[0] in ('ref', 'rc') and b[0] in ('ref', 'rc'): return a == b
        for t in (('t', 'Eq', a, b), ('t', 'Eq', b, a)):
            f = st.facts.get(t)
            if f is not None and f[0] == '=': return bool(f[1])
        return None
    def discr_of(self, ty, v):
        t = self.p.types[ty]
        if t['k'] == 'adt' and t['e']: return t['v'][v]['d']
        return 0
    def assume(self, st, v, n):
        """record that scalar term v has value n; False if contradictory"""
        v = self.simp(st, v)
        if v[0] == 'int': return v[1] == n
        if v[0] not in ('sym', 't'): return True
        f = st.facts.get(v)
        if f is not None and f[0] == '!' and n in f[1]: return False
        st.facts[v] = ('=', n)
        if v[0] == 't':
            op = v[1]
            if op == 'discr':
                # known disequalities with other unknowns
                for q, g in list(st.facts.items()):
                    if g == ('=', 0) and q[0] == 't' and q[1] == 'Eq' and v in q[2:4]:
                        o = q[3] if q[2] == v else q[2]
                        if o != v and o[0] in ('sym', 't') and not self.exclude(st, o, [n]): return False
            if op in CMPOPS and self.mixed_len(v): st.taint = st.taint | {'length of a summarised sequence'}
            if op == 'Not': return self.assume(st, v[2], 0 if n else 1)
            if op in ('Eq', 'Ne'):
                truth = bool(n) == (op == 'Eq')
                a, b = self.simp(st, v[2]), self.simp(st, v[3])
                if op == 'Ne':
                    st.facts[('t', 'Eq') + tuple(sorted((v[2], v[3]), key=repr))] = ('=', int(truth))
                if a[0] == 'int': a, b = b, a
                if b[0] == 'int' and a[0] in ('sym', 't'):
                    if truth: return self.assume(st, a, b[1])
                    return self.exclude(st, a, [b[1]])
        return True
    def exclude(self, st, v, ns):
        v = self.simp(st, v)
        if v[0] == 'int': return v[1] not in ns
        f = st.facts.get(v)
        ex = set(ns)
        if f is not None and f[0] == '!': ex |= f[1]
        if v[0] == 't' and v[1] == 'discr':
            t = self.p.types[v[3]]
            if t['k'] == 'adt' and t['e']:
                left = [x['d'] for x in t['v'] if x['d'] not in ex]
                if not left: return False
                if len(left) == 1:
                    return self.assume(st, v, left[0])
        elif v[0] == 't' and v[1] in BOOLOPS:
            left = [x for x in (0, 1) if x not in ex]
            if not left: return False
            if len(left) == 1: return self.assume(st, v, left[0])
        st.facts[v] = ('!', frozenset(ex))
        return True

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, rv, span):
        k = rv[0]
        if k == 'use': return self.operand(st, rv[1])
        if k in ('ref', 'addr'):
            loc, proj, ty, var = self.place(st, rv[1])
            if var is not None: pass
            # reference to an unmaterialised field stays lazy until read
            return self.addr(loc, proj)
        if k == 'agg':
            ops = tuple(self.operand(st, o) for o in rv[4])
            if rv[1] == 'array': return ('vec', ops)
            if rv[1] == 'rawptr': return ops[0]
            if rv[1] == 'adt' and self.p.types[rv[2]].get('n') in OPAQUE: raise Stop('%s built from raw parts' % self.p.types[rv[2]]['n'])
            return ('adt', rv[3], ops)
        if k == 'bin':
            return self.binop(st, rv[1], self.operand(st, rv[2]), self.operand(st, rv[3]), rv[4])
        if k == 'cbin':
            a, b = self.operand(st, rv[2]), self.operand(st, rv[3])
            return self.checked(st, rv[1], a, b, rv[4])
        if k == 'un':
            a = self.simp(st, self.operand(st, rv[2]))
            if rv[1] == 'Not':
                if a[0] == 'int':
                    t = self.p.types[rv[3]]
                    if t['k'] == 'bool': return boolv(not a[1])
                    return ('int', ~a[1] & ((1 << 8 * t.get('b', 8)) - 1) if t['k'] == 'uint' else ~a[1])
                return ('t', 'Not', a)
            if rv[1] == 'Neg':
                if a[0] in ('int', 'flt'): return (a[0], -a[1])
                return ('t', 'Neg', a)
            if rv[1] == 'PtrMetadata':
                b = a
                if b[0] == 'ref': b = self.read(st, b[1], b[2])
                if b[0] == 't' and b[1] == 'bytes': b = b[2]
                if b[0] == 'str': return ('int', len(b[1].encode()))
                return self.simp(st, self.veclen(b))
            return ('t', rv[1], a)
        if k == 'discr':
            loc, proj, ty, var = self.place(st, rv[1])
            v = self.read(st, loc, proj)
            if v[0] == 'lazy': raise NeedMaterialize(loc, proj, v)
            if v[0] == 'adt': return ('int', self.discr_of(rv[2], v[1]))
            if v[0] in ('sym', 't'): return self.simp(st, ('t', 'discr', v, rv[2]))
            if v[0] == 'uninit':          # a zero-sized enum with one inhabited variant needs no initialisation
                live = self.inhabited(rv[2])
                if live is not None and len(live) == 1: return ('int', self.discr_of(rv[2], live[0]))
            raise Stop("discr of %s" % v[0])
        if k == 'cast':
            a = self.operand(st, rv[2])
            return self.cast(st, rv[1], a, rv[3], rv[4])
        if k == 'len':
            loc, proj, ty, var = self.place(st, rv[1])
            v = self.read(st, loc, proj)
            return self.veclen(v)
        if k == 'rep':
            return ('vec', tuple([self.operand(st, rv[1])] * min(rv[2], 64)))
        raise Stop('rvalue %s' % k)
    def veclen(self, v):
        if v[0] == 'vec' and not any(x[0] == 'seg' for x in v[1]):
            return ('int', len(v[1]))
        return ('t', 'len', v)
    def cast(self, st, kind, a, to, frm):
        if a[0] == 'int':
            t = self.p.types[to]
            if t['k'] == 'uint': return ('int', a[1] & ((1 << 8 * t['b']) - 1))
            if t['k'] == 'int':
                b = 8 * t['b']; x = a[1] & ((1 << b) - 1)
                return ('int', x - (1 << b) if x >> (b - 1) else x)
            if t['k'] == 'float': return self.fround(float(a[1]), t)
            return a
        t = self.p.types[to]
        if a[0] == 'flt':
            x = a[1]
            if t['k'] == 'float': return self.fround(x, t)
            if t['k'] in ('int', 'uint'):                        # `as` saturates
                b = 8 * t['b']; lo, hi = (0, (1 << b) - 1) if t['k'] == 'uint' else (-(1 << b - 1), (1 << b - 1) - 1)
                if x != x: return ('int', 0)
                if x in (float('inf'), float('-inf')): return ('int', hi if x > 0 else lo)
                return ('int', min(max(int(x), lo), hi))
        if 'Pointer' in kind or 'Transmute' in kind or 'PtrToPtr' in kind or t['k'] in ('ref', 'ptr', 'fnptr'):
            return a
        if a[0] in ('sym', 't'):
            f = self.simp(st, a)
            if f[0] == 'int': return self.cast(st, kind, f, to, frm)
            ft = self.p.types[frm]
            if ft['k'] == 'float' and t['k'] == 'float' and ft == t: return a
            return ('t', 'cast', a, to)
        return a
    def fround(self, x, t):
        if t.get('n') == 'F32':
            try: x = struct.unpack('f', struct.pack('f', x))[0]
            except OverflowError: x = float('inf') if x > 0 else float('-inf')
        return ('flt', x)
    def binop(self, st, op, a, b, ty):
        a = self.simp(st, a); b = self.simp(st, b)
        if a[0] == b[0] and a[0] in ('int', 'flt'):
            x, y = a[1], b[1]
            if op in CMP: return boolv(CMP[op](x, y))
            t = self.p.types[ty] if ty is not None else {'k': 'int', 'b': 8}
            if a[0] == 'flt':
                try:
                    return ('flt', {'Add': x + y, 'Sub': x - y, 'Mul': x * y, 'Div': x / y if y else float('nan')}[op])
                except KeyError: return ('t', op, a, b)
            base = op.replace('Unchecked', '')
            if base in ARITH:
                if base in ('Div', 'Rem') and y == 0: return ('t', op, a, b)
                return ('int', wrap(ARITH[base](x, y), t))
            if op == 'Cmp':
                return ('adt', 0 if x < y else 1 if x == y else 2, ())
            return ('t', op, a, b)
        for x, y, o in ((a, b, op), (b, a, {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op))):
            if x[0] == 't' and x[1] == 'slen' and y[0] == 'int':      # emptiness of an unknown string
                k = (o, y[1])
                e = self.simp(st, ('t', 'isempty', x[2]))
                if k in (('Eq', 0), ('Lt', 1), ('Le', 0)): return e
                if k in (('Ne', 0), ('Ge', 1), ('Gt', 0)): return boolv(not e[1]) if e[0] == 'int' else ('t', 'Not', e)
        if op in ('Eq', 'Ne'):
            r = self.eq(st, a, b)
            if r is not None: return boolv(r == (op == 'Eq'))
            a, b = sorted((a, b), key=repr)
        if op in ('BitAnd', 'BitOr') and ty is not None and self.p.types[ty]['k'] == 'bool':
            for x, y in ((a, b), (b, a)):
                if x[0] == 'int':
                    if op == 'BitAnd': return y if x[1] else FALSE
                    return TRUE if x[1] else y
        t = self.simp(st, ('t', op, a, b))
        return t
    def checked(self, st, op, a, b, ty):
        a = self.simp(st, a); b = self.simp(st, b)
        if a[0] == 'int' and b[0] == 'int':
            r = ARITH[op](a[1], b[1]); w = wrap(r, self.p.types[ty])
            return adt(0, ('int', w), boolv(w != r))
        if op == 'Add' or op == 'Mul':
            return adt(0, ('t', op, a, b), FALSE)   # assumption: sizes stay below usize::MAX
        if op == 'Sub' and b == ('int', 0): return adt(0, a, FALSE)
        if op == 'Sub' and a[0] == 't' and a[1] == 'Add' and a[3] == b: return adt(0, a[2], FALSE)
        return adt(0, ('t', op, a, b), ('t', 'Ovf' + op, a, b))

    # ------------------------------------------------------------------ driver
    def run(self, inst, args, st=None):
        """analyse entry `inst` on argument values; returns list of Outcomes"""
        st = st or State()
        f = Frame(inst, None, None)
        for i, a in enumerate(args): f.locals[i + 1] = a
        st.frames.append(f)
        work = [st]
        self.seen = {}
        self.loopstates = {}
        outs = []
        t0 = time.time(); over = budget(t0)
        if over:
            self.stats['undecided'].append(('', over))
            return [Outcome('stuck', st, None, '', over)]
        while work:
            s = work.pop()
            try:
                r = self.step(s)
            except Stop as e:
                self.stats['undecided'].append((self.where(s), str(e)))
                outs.append(Outcome('stuck', s, None, self.where(s), '%s in %s' % (e, self.infn(s))))
                continue
            for x in r:
                if isinstance(x, Outcome): outs.append(x)
                elif x.taint and self.o.get('taint_widen'):       # not precise any more: nothing on this path can be judged
                    msg = ', '.join(sorted(map(str, x.taint)))[:200]
                    self.stats['undecided'].append((self.where(x), msg))
                    outs.append(Outcome('stuck', x, None, self.where(x), '%s in %s' % (msg, self.infn(x))))
                else: work.append(x)
            if self.stats['steps'] > self.o['max_steps']: over = 'step budget'
            elif not self.stats['steps'] & 255: over = budget(t0)
            if over:
                self.stats['undecided'].append((self.where(s), over))
                outs.append(Outcome('stuck', s, None, self.where(s), over))
                break
        self.seen = {}; self.loopstates = {}
        return outs

    def infn(self, st):
        for f in reversed(st.frames):
            i = getattr(f, 'inst', None)
            if i is not None: return (self.p.insts[i] if isinstance(i, int) else i).path
        return '?'
    def where(self, st, span=None):
        for f in reversed(st.frames):
            if f.inst.crate == 'svgdom' and f.inst.body:
                return '%s (%s)' % (f.inst.name, f.inst.body.blocks[f.bb][2])
        f = st.frames[-1] if st.frames else None
        return f.inst.name if f else '?'
    def site(self, st):
        """(function path, line) of the innermost svgdom frame"""
        for f in reversed(st.frames):
            if f.inst.crate == 'svgdom' and f.inst.body:
                return f.inst.path, f.inst.body.blocks[f.bb][2]
        return '?', '?'

    def step(self, st):
        """execute the current basic block of the top frame; list of State | Outcome"""
        self.stats['steps'] += 1
        f = st.frames[-1]
        body = f.inst.body
        if f.si < 0:
            if f.bb in (body.joins if self.o.get('merge_joins', True) else body.heads):
                if not self.admit(st, f.bb in body.heads): return []
                f = st.frames[-1]
            f.si = 0
        self.stats['functions'].add(f.inst.idx)
        blk = body.blocks[f.bb]
        stmts = blk[0]
        depth = len(st.frames)
        i = f.si
        snap = None
        try:
            while i < len(stmts):
                s = stmts[i]
                if s[0] == '=':
                    v = self.rvalue(st, s[2], s[3])
                    loc, proj, ty, var = self.place(st, s[1])
                    self.write(st, loc, proj, v)
                elif s[0] == 'dead':
                    f.locals.pop(s[1], None)
                elif s[0] == 'sd':
                    loc, proj, ty, var = self.place(st, s[1])
                    v = self.read(st, loc, proj)
                    if v[0] == 'adt': self.write(st, loc, proj, ('adt', s[2], v[2]))
                    else: self.write(st, loc, proj, ('adt', s[2], ()))
                elif s[0] == 'assume':
                    pass
                else:
                    raise Stop('stmt %r' % (s[0],))
                i += 1
            snap = dict(f.locals)
            f.si = -1
            return self.term(st, f, blk[1])
        except NeedMaterialize as m:
            # a not yet materialised heap field is read: split on what it can be, then
            # re-execute the current statement (nothing of it has taken effect yet)
            if len(st.frames) != depth: raise Stop('lazy read inside a model')
            if snap is not None: f.locals = snap
            f.si = i
            if self.materialize is None: raise Stop('lazy value')
            return self.materialize(self, st, m.loc, m.proj, m.lazy)

    def inhabited(self, ty):
        """variants of an enum type that can have values"""
        def empty(t):
            t = self.p.types[t]
            return t['k'] == 'never' or (t['k'] == 'adt' and t.get('v') == [] ) or t.get('n', '').endswith('convert::Infallible')
        t = self.p.types[ty]
        if t['k'] != 'adt' or not t.get('v'): return None
        return [i for i, v in enumerate(t['v']) if not any(empty(f[1]) for f in v['f'])]
    def admit(self, st, is_head):
        self.stats['states'] += 1
        key = tuple((fr.inst.idx, fr.bb, fr.target) for fr in st.frames)
        seen = self.seen.setdefault(key, {})
        n = self.o.get('sig_after', 0)
        if n:                       # explicit documents without forks: only look for repeated states where a point is visited often
            self.visits[key] = self.visits.get(key, 0) + 1
            if self.visits[key] <= n: return True
        # explicit documents: generated ids only need renaming where a point keeps producing new states
        if len(seen) >= self.o.get('canon_after', 0): self.canon(st)
        sig = self.sig(st)
        if sig in seen:
            self.stats['merged'] += 1
            return False
        if is_head and len(seen) >= self.o['widen_after']:
            self.widen(st, key)
            self.canon(st)
            sig = self.sig(st)
            if sig in seen:
                self.stats['merged'] += 1
                return False
        seen[sig] = True
        if is_head:
            self.loopstates.setdefault(key, []).append(dict(st.frames[-1].locals))
        if len(seen) > self.o.get('max_states_per_point', 3000):
            raise Stop('too many states at a program point')
        return True
    def widen(self, st, key):
        prev = self.loopstates.get(key)
        if not prev: return
        f = st.frames[-1]
        p = prev[-1]
        for l, v in list(f.locals.items()):
            if l in p and p[l] != v:
                f.locals[l] = self.antiunify(st, p[l], v)
                if self.o.get('taint_widen'): st.taint = st.taint | {'widening'}
    def antiunify(self, st, a, b):
        if a == b: return a
        if a[0] == 'adt' and b[0] == 'adt' and a[1] == b[1] and len(a[2]) == len(b[2]):
            return ('adt', a[1], tuple(self.antiunify(st, x, y) for x, y in zip(a[2], b[2])))
        if b[0] in ('int', 'flt', 'str', 't'):
            s = ('t', 'widened', st.sym())
            return s
        return b

    def canon(self, st):
        """garbage-collect heap cells and facts, rename generated ids in first-use order"""
        ren = {}
        order = []
        def visit(v):
            k = v[0]
            if k in ('rc', 'weak', 'box'):
                o = v[1]
                if o not in ren and o in st.heap:
                    ren[o] = None; order.append(o)
            elif k == 'adt':
                for x in v[2]: visit(x)
            elif k == 'vec':
                for x in v[1]: visit(x)
            elif k == 'ref':
                visitloc(v[1])
                for e in v[2]:
                    if len(e) > 2 and e[0] == 'e' and isinstance(e[2], tuple): visit(e[2])
            elif k == 'guard':
                if v[2] not in ren and v[2] in st.heap: ren[v[2]] = None; order.append(v[2])
                visit(v[3])
            elif k == 'sym':
                syms.setdefault(v[1], None)
            elif k == 't':
                for x in v[2:]:
                    if isinstance(x, tuple): visit(x)
            else:
                for x in v[1:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str): visit(x)
        def visitloc(l):
            if l[0] == 'H':
                if l[1] not in ren and l[1] in st.heap: ren[l[1]] = None; order.append(l[1])
            elif l[0] in ('C', 'V', 'P'):
                if l[0] == 'P' and l in st.heap and l not in pl: pl[l] = None; order.append(l)
                visit(l[1])
        syms = {}; pl = {}
        for o in st.heap:
            if isinstance(o, str):
                ren[o] = o; order.append(o)
        for fr in st.frames:
            for l in sorted(fr.locals):
                visit(fr.locals[l])
            if fr.cont:
                for x in fr.cont[1:]:
                    if isinstance(x, tuple): visit(x)
            if isinstance(fr.dest, tuple) and fr.dest: visitloc(fr.dest[0])
        for e in st.ev:
            if isinstance(e, tuple):
                for x in e:
                    if isinstance(x, tuple) and x and isinstance(x[0], str): visit(x)
        for k, g in st.ghost.items():
            if isinstance(g, tuple) and g and isinstance(g[0], str): visit(g)
        i = 0
        while i < len(order):
            h = st.heap.get(order[i]); i += 1
            if h:
                for kk in sorted(h):
                    x = h[kk]
                    if isinstance(x, tuple) and x and isinstance(x[0], str): visit(x)
        if self.o.get('keep_named'):      # facts about the inputs of the analysis stay
            def names(v):
                if v[0] == 'sym':
                    if isinstance(v[1], str): syms.setdefault(v[1], None)
                    return
                for x in v[1:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str): names(x)
            for t in st.facts: names(t)
        # reachability of facts: keep those whose symbols are all live
        def live(v):
            if v[0] == 'sym': return v[1] in syms
            if v[0] in ('rc', 'weak', 'box'): return v[1] in ren
            if v[0] == 'ref' and v[1][0] == 'L': return True
            return all(live(x) for x in v[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))
        n = 0
        sren = {}
        for s in syms:
            if isinstance(s, str): sren[s] = s
            else:
                n += 1; sren[s] = n
        for o in order:
            if isinstance(o, str): ren[o] = o
            elif isinstance(o, int):
                n += 1; ren[o] = n
        cache = {}
        def rn(v):
            r = cache.get(v)
            if r is not None: return r
            k = v[0]
            if k in ('int', 'flt', 'str', 'uninit', 'fn'): r = v
            elif k == 'sym': r = ('sym', sren.get(v[1], v[1]))
            elif k in ('rc', 'weak', 'box'): r = (k, ren.get(v[1], v[1]))
            elif k == 'adt': r = ('adt', v[1], tuple(rn(x) for x in v[2]))
            elif k == 'vec': r = ('vec', tuple(rn(x) for x in v[1]))
            elif k == 'ref': r = ('ref', rnl(v[1]), tuple((e[:2] + (rn(e[2]),) + e[3:]) if e[0] == 'e' and len(e) > 2 and isinstance(e[2], tuple) else e for e in v[2]))
            elif k == 'guard': r = ('guard', v[1], ren.get(v[2], v[2]), rn(v[3]))
            else:
                r = (k,) + tuple(rn(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[1:])
            cache[v] = r
            return r
        def rnl(l):
            if l[0] == 'H': return ('H', ren.get(l[1], l[1]))
            if l[0] in ('C', 'V', 'P'): return (l[0], rn(l[1]))
            return l
        for fr in st.frames:
            fr.locals = {l: rn(v) for l, v in fr.locals.items()}
            if fr.cont: fr.cont = (fr.cont[0],) + tuple(rn(x) if isinstance(x, tuple) else x for x in fr.cont[1:])
            if isinstance(fr.dest, tuple) and fr.dest: fr.dest = (rnl(fr.dest[0]),) + fr.dest[1:]
        nh = {}
        for o in order:
            h = st.heap.get(o)
            if h is None: continue
            nk = rnl(o) if isinstance(o, tuple) else ren[o]
            nh[nk] = {kk: (rn(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x) for kk, x in h.items()}
        st.heap = nh
        nf = {}
        for t, v in st.facts.items():
            if live(t):
                nf[rn(t)] = rn(v) if t[0] == 'val' else v
        st.facts = nf
        st.ev = tuple(tuple(rn(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in e) if isinstance(e, tuple) else e for e in st.ev)
        st.ghost = {k: (rn(g) if isinstance(g, tuple) and g and isinstance(g[0], str) else g) for k, g in st.ghost.items()}
        st.next = n

    def sig(self, st):
        return (tuple((tuple(sorted(fr.locals.items())), fr.cont) for fr in st.frames),
                tuple((k, tuple(sorted(((a, b) for a, b in v.items()), key=lambda z: z[0]))) for k, v in st.heap.items()),
                frozenset(st.facts.items()), st.ev, st.taint,
                tuple(sorted(st.ghost.items(), key=lambda z: z[0])))

    # ------------------------------------------------------------------ terminators
    def term(self, st, f, t):
        k = t[0]
        if k == 'goto':
            f.bb = t[1]; return [st]
        if k == 'sw':
            return self.switch(st, f, t)
        if k == 'ret':
            return self.ret(st)
        if k == 'drop':
            loc, proj, ty, var = self.place(st, t[1])
            v = self.read(st, loc, proj)
            f.bb = t[2]
            dropi = self.p.types[t[3]].get('drop') if t[3] is not None else None
            if dropi is not None and v[0] != 'uninit':
                nf = Frame(self.p.insts[dropi], None, None, ('dropped', self.addr(loc, proj)))
                nf.locals[1] = self.addr(loc, proj)
                st.frames.append(nf)
                return [st]
            self.drop_value(st, v)
            if loc[0] in ('L', 'H'):
                self.write(st, loc, proj, UNINIT)
            return [st]
        if k == 'assert':
            c = self.simp(st, self.operand(st, t[1]))
            want = 1 if t[2] else 0
            if c[0] == 'int':
                if c[1] == want:
                    f.bb = t[4]; return [st]
                return [self.panic(st, 'assert:' + t[3])]
            s2 = st.copy()
            r = []
            if self.assume(st, c, want):
                f.bb = t[4]; r.append(st)
            if self.assume(s2, c, 1 - want):
                r.append(self.panic(s2, 'assert:' + t[3], cond=c))
            return r
        if k == 'call':
            return self.call(st, f, t)
        if k == 'unreach':
            return [Outcome('unreachable', st, None, self.where(st))] if False else []
        if k in ('resume', 'abort'):
            return []
        raise Stop('terminator %s' % k)

    def switch(self, st, f, t):
        c = self.simp(st, self.operand(st, t[1]))
        if c[0] == 'int':
            m = c[1]
            if m < 0: m &= (1 << 128) - 1
            for v, b in t[2]:
                if v == m or (c[1] < 0 and v == (c[1] & ((1 << 8 * self.p.types[t[4]].get('b', 8)) - 1))):
                    f.bb = b; return [st]
            f.bb = t[3]; return [st]
        if c[0] not in ('sym', 't'): raise Stop('switch on %s' % c[0])
        tt = self.p.types[t[4]]
        res = []
        for v, b in t[2]:
            s2 = st.copy()
            if self.assume(s2, c, v):
                s2.frames[-1].bb = b; res.append(s2)
        if tt['k'] == 'bool':
            rest = [x for x in (0, 1) if x not in [v for v, _ in t[2]]]
            if len(rest) == 1:
                s2 = st
                if self.assume(s2, c, rest[0]):
                    s2.frames[-1].bb = t[3]; res.append(s2)
                return res
            if not rest: return res
        if self.exclude(st, c, [v for v, _ in t[2]]):
            st.frames[-1].bb = t[3]
            res.append(st)
        return res

    def drop_value(self, st, v):
        k = v[0]
        if k == 'guard':
            self.release(st, v)
        elif k == 'adt':
            for x in v[2]: self.drop_value(st, x)
        elif k == 'vec':
            for x in v[1]: self.drop_value(st, x)
        elif k in ('it',):
            pass
    def release(self, st, g):
        h = st.heap.get(g[2])
        if h is None: return
        if g[1] == 'mut': h['bor'] = 0
        else: h['bor'] = max(0, h.get('bor', 0) - 1)

    def ret(self, st):
        fr = st.frames.pop()
        v = fr.locals.get(0, UNIT)
        return self.deliver(st, fr, v)
    def deliver(self, st, fr, v):
        if fr.cont is not None:
            h = CONTS[fr.cont[0]]
            return self.outcomes(st, h(self, st, fr, v))
        if not st.frames:
            return [Outcome('ret', st, v)]
        if fr.target is None:
            return []
        if fr.dest is not None:
            self.write(st, fr.dest[0], fr.dest[1], v)
        st.frames[-1].bb = fr.target
        return [st]
    def outcomes(self, st, r):
        return r

    def panic(self, st, msg, cond=None):
        o = Outcome('panic', st, None, self.where(st), msg)
        o.value = cond
        return o

    def call(self, st, f, t):
        self.stats['calls'] += 1
        callee = t[1]
        args = [self.operand(st, a) for a in t[2]]
        if callee is None:
            fv = self.operand(st, t[7])
            if fv[0] != 'fn': raise Stop('indirect call')
            callee = fv[1]
        dloc, dproj, dty, dvar = self.place(st, t[3])
        inst = self.p.insts[callee]
        return self.invoke(st, inst, args, (dloc, dproj), t[4], None, t[6], t[8])

    def invoke(self, st, inst, args, dest, target, cont=None, span=None, argtys=None):
        """call inst; the result goes to dest/target of the current top frame (or to cont)"""
        fr = Frame(inst, dest, target, cont, span)
        h = self.model(inst)
        for ob in self.observers:
            ob(self, st, inst, args)
        r = h(self, st, inst, args) if h is not None else None
        if r is not None:
            out = []
            for x in r:
                if isinstance(x, Outcome): out.append(x); continue
                if len(x) == 2:
                    s2, v = x
                    f2 = Frame(inst, dest, target, cont, span) if s2 is not st else fr
                    out.extend(self.deliver(s2, f2, v))
                elif x[0] == 'call':       # ('call', st, inst, args, cont): invoke with continuation
                    _, s2, i2, a2, c2 = x
                    # the continuation frame remembers where the result has to go
                    s2.frames.append(Frame(inst, dest, target, cont, span))
                    out.extend(self.invoke(s2, i2, a2, None, None, c2, span))
                    continue
                else:
                    raise Stop('bad model result')
            return out
        if inst.body is None and inst.ctor is not None:
            return self.deliver(st, fr, ('adt', inst.ctor, tuple(args)))
        if inst.body is None:
            return self.opaque(st, inst, args, fr)
        if len(st.frames) > self.o['max_depth']:
            raise Stop('call depth')
        st.frames.append(fr)
        if inst.clo and len(args) == 2 and inst.body.argc != 1 and inst.body.spread is None:
            tup = args[1]
            n = inst.body.argc - 1
            if tup[0] == 'adt': flat = list(tup[2])
            else: flat = [('t', '.', tup, 0, i) for i in range(n)]
            args = [args[0]] + flat
        elif inst.clo and len(args) == 2 and inst.body.argc == 1:
            args = [args[0]]
        for i, a in enumerate(args): fr.locals[i + 1] = a
        fr.bb = 0
        return [st]

    def opaque(self, st, inst, args, fr):
        """unknown function: arbitrary result; everything reachable through &mut is havocked"""
        self.stats['opaque'].add(inst.path)
        if inst.out is not None and self.p.types[inst.out]['k'] == 'never':
            return [self.panic(st, 'diverge:' + inst.path)]
        for a, ty in zip(args, inst.ins):
            t = self.p.types[ty]
            if t['k'] == 'ref' and t['m'] and a[0] == 'ref' and a[1][0] in ('L', 'H', 'P'):
                self.write(st, a[1], a[2], st.sym())
        if inst.crate not in self.o['opaque_crates'] and not (inst.crate == 'roxmltree' and inst.path.split('::')[-1] in POSITIONS):
            st.taint = st.taint | {inst.path}
            return self.deliver(st, fr, st.sym())
        if any(self.p.types[ty]['k'] in ('ref', 'ptr') and self.p.types[ty].get('m') for ty in inst.ins):
            return self.deliver(st, fr, st.sym())
        # a function of an external crate without &mut access: a deterministic unknown function
        return self.deliver(st, fr, ('t', 'call', inst.path) + tuple(self.byval(st, a) for a in args))
    def byval(self, st, v, n=4):
        while v[0] == 'ref' and n:
            try: v = self.read(st, v[1], v[2])
            except Stop: break
            n -= 1
        return v

    def model(self, inst):
        m = self._mcache.get(inst.idx, 0)
        if m == 0:
            m = self.models(inst)
            self._mcache[inst.idx] = m
        return m

class NeedMaterialize(Exception):
    def __init__(self, loc, proj, lazy):
        self.loc = loc; self.proj = proj; self.lazy = lazy

def wrap(n, t):
    if t['k'] == 'uint': return n & ((1 << 8 * t['b']) - 1)
    if t['k'] == 'int':
        b = 8 * t['b']; x = n & ((1 << b) - 1)
        return x - (1 << b) if x >> (b - 1) else x
    return n
import operator
CMP = {'Eq': operator.eq, 'Ne': operator.ne, 'Lt': operator.lt, 'Le': operator.le, 'Gt': operator.gt, 'Ge': operator.ge}
ARITH = {'Add': operator.add, 'Sub': operator.sub, 'Mul': operator.mul, 'Div': lambda a, b: int(a / b) if a < 0 or b < 0 else a // b,
         'Rem': lambda a, b: a - b * int(a / b) if a < 0 or b < 0 else a % b, 'BitXor': operator.xor, 'BitAnd': operator.and_, 'BitOr': operator.or_,
         'Shl': lambda a, b: a << b, 'Shr': lambda a, b: a >> b}
BOOLOPS = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Not', 'streq', 'bool'}
POSITIONS = {'value_range', 'range', 'text_pos_at', 'pos', 'input_text'}     # positions in the source text: any value
CONTS = {}
