"""C01/C02/C18: tree.rs decided in the shape domain."""
from interp import *
import models
from shape import *

MUT = {'detach': 't_detach', 'append': 't_append', 'prepend': 't_prepend', 'insert_after': 't_insert_after', 'insert_before': 't_insert_before'}

def ref(v): return ('ref', ('C', v), ())

def compare(F, st, over, extra_new=()):
    """compare the post heap with pre-state + overwritten fields; yields (state, mismatches)"""
    work = [st]; res = []
    while work:
        s = work.pop()
        mism = []; again = None
        S = Spec(F, s)
        try:
            o = over(S)
        except Undecided as u:
            work += F.decide(s, u.key[0], u.key[1]); continue
        if o is False: continue
        pre = S.prem
        for n in F.nodes(s):
            for r in ROLES:
                p = F.post(s, n, r)
                if p[0] == '?':
                    mism.append((n, r, 'unknown', None)); continue
                if p[0] == 'pre' and (n, r) == (p[1], p[2]) and (n, r) not in S.o: continue
                if p[0] == 'pre':
                    again = (p[1], p[2]); break
                if (n, r) in S.o: want = S.o[(n, r)]
                elif (n, r) in pre: want = pre[(n, r)]
                else: again = (n, r); break
                if p[1] != want: mism.append((n, r, p[1], want))
            if again: break
        if again:
            work += F.decide(s, *again); continue
        res.append((s, mism, S))
    return res

def describe(F, s, names):
    pre = F.pre(s)
    inv = {v: k for k, v in names.items()}
    def nm(x): return 'nothing' if x is None else inv.get(x, x)
    return ', '.join('%s(%s)=%s' % (r, nm(n), nm(v)) for (n, r), v in sorted(pre.items(), key=repr))

def mutator(F, op, two):
    st = State(); F.add_node(st)
    args = [ref(F.handle('N0'))]
    names = {'self': 'N0'}
    if two:
        F.add_node(st); args.append(F.handle('N1')); names['new'] = 'N1'
    I = F.interp()
    outs = I.run(F.p.roots[MUT[op]], args, st)
    return I, outs, names

def over_for(op):
    def over(S):
        s, x = 'N0', 'N1'
        if op == 'detach':
            S.detach(s); return
        if S.is_anc(x, s): return False                 # moving a node below itself is outside the contract
        if op in ('insert_after', 'insert_before') and S.get(s, 'parent') is None: return False
        {'append': spec_append, 'prepend': spec_prepend, 'insert_after': spec_after, 'insert_before': spec_before}[op](S, s, x)
        if S.is_anc(x, s): return False
    return over

def run_mutators(F, ctx, want):
    """want: 'shape' (C01) or 'panic' (C02)"""
    for op in MUT:
        two = op != 'detach'
        try:
            I, outs, names = mutator(F, op, two)
        except Stop as e:
            ctx.undecided(op, e); continue
        ctx.absorb(I); ctx.paths += len(outs)
        over = over_for(op)
        for k, o in enumerate(outs):
            if o.kind == 'stuck':
                ctx.undecided('%s/%d' % (op, k), o.msg); continue
            # restrict to inputs within the contract, splitting where the oracle needs it
            if o.kind == 'panic':
                for s in admissible(F, o.state, over):
                    if want == 'panic':
                        nm = '%s/panic' % op
                        if s.taint: ctx.undecided(nm, s.taint)
                        else: ctx.violated(nm, '%s:%s' % (op, o.msg), '%s panics (%s) at %s although the call is within its contract; starting from: %s' % (op, o.msg, o.site, describe(F, s, names)))
                continue
            if want == 'panic':
                left = [n for n in F.nodes(o.state) if o.state.heap[n].get('bor', 0) != 0]
                ctx.judge('%s/returns' % op, not left, '%s:borrow-left' % op, '%s returns while a node is still borrowed' % op, o.state.taint)
                continue
            for j, (s, mism, S) in enumerate(compare(F, o.state, over)):
                nm = '%s/%d.%d' % (op, k, j)
                if not mism:
                    ctx.ok(nm, '%s from {%s}' % (op, describe(F, s, names)) if j == 0 and k < 2 else None); continue
                if s.taint: ctx.undecided(nm, s.taint); continue
                m = mism[0]
                inv = {v: kk for kk, v in names.items()}
                f = lambda x: 'nothing' if x is None else inv.get(x, x)
                ctx.violated(nm, '%s:%s' % (op, m[1]), '%s leaves %s of %s = %s, expected %s; starting from: %s' % (op, m[1], f(m[0]), f(m[2]), f(m[3]), describe(F, s, names)))
            # node data untouched
            for n in F.nodes(o.state):
                v = o.state.heap[n]['val']
                bad = [i for i in range(F.n_fields) if i not in F.role_of and i not in F.extra and (v[0] != 'adt' or v[2][i] != ('sym', 'data_' + n))]
                if bad and not o.state.taint: ctx.violated('%s/data' % op, '%s:data' % op, '%s changes the data of a node' % op)

def admissible(F, st, over):
    work = [st]; r = []
    while work:
        s = work.pop()
        try:
            if over(Spec(F, s)) is False: continue
            r.append(s)
        except Undecided as u:
            work += F.decide(s, u.key[0], u.key[1])
    return r

def run_accessors(F, ctx):
    for role, acc in ACC.items():
        st = State(); F.add_node(st)
        I = F.interp()
        outs = I.run(F.p.roots[acc], [ref(F.handle('N0'))], st)
        ctx.absorb(I); ctx.paths += len(outs)
        for o in outs:
            check_result(F, ctx, acc, o, lambda S: S.get('N0', role))
    for acc, f in (('t_has_children', lambda S: S.get('N0', 'first') is not None),):
        st = State(); F.add_node(st); I = F.interp()
        outs = I.run(F.p.roots[acc], [ref(F.handle('N0'))], st)
        ctx.absorb(I); ctx.paths += len(outs)
        for o in outs: check_result(F, ctx, acc, o, f)
    # identity comparison
    for a, b in (('N0', 'N0'), ('N0', 'N1')):
        st = State(); F.add_node(st); F.add_node(st); I = F.interp()
        outs = I.run(F.p.roots['t_eq'], [ref(F.handle(a)), ref(F.handle(b))], st)
        ctx.absorb(I)
        for o in outs: check_result(F, ctx, 't_eq', o, lambda S: a == b)
    st = State(); F.add_node(st); I = F.interp()
    outs = I.run(F.p.roots['t_clone'], [ref(F.handle('N0'))], st)
    for o in outs:
        if o.kind == 'ret': ctx.judge('clone', o.value == F.handle('N0'), 'clone:other', 'cloning a handle gives another node')
    # root(): the top of the parent chain
    st = State(); F.add_node(st); I = F.interp(dict(max_steps=60000)); F.cap = 6
    outs = I.run(F.p.roots['t_root'], [ref(F.handle('N0'))], st)
    F.cap = 9
    ctx.absorb(I); ctx.paths += len(outs)
    def top(S):
        n = 'N0'
        while True:
            q = S.get(n, 'parent')
            if q is None: return n
            n = q
    for o in outs: check_result(F, ctx, 't_root', o, top, opt=False)

def check_result(F, ctx, name, o, want, opt=True):
    if o.kind == 'stuck': ctx.undecided(name, o.msg); return
    if o.kind == 'panic':
        ctx.judge(name, False, name + ':panic', '%s panics: %s at %s' % (name, o.msg, o.site), o.state.taint); return
    work = [o.state]
    while work:
        s = work.pop()
        try: w = want(Spec(F, s))
        except Undecided as u:
            work += F.decide(s, u.key[0], u.key[1], 7); continue
        v = o.value
        if isinstance(w, bool):
            good = v == boolv(w)
        elif not opt: good = F.unhandle(v) == w
        elif w is None: good = v == NONE
        else: good = v[0] == 'adt' and v[1] == 1 and F.unhandle(v[2][0]) == w
        ctx.judge(name, good, name + ':result', '%s returns %s, expected %s when %s' % (name, v, w, describe(F, s, {'self': 'N0'})), s.taint)
        for n in F.nodes(s):
            for r in ROLES:
                q = F.post(s, n, r)
                if q[0] == '=' and F.pre(s).get((n, r), 0) != q[1]:
                    ctx.judge(name + '/readonly', False, name + ':writes', '%s modifies the tree' % name, s.taint)

def C01(p, ctx):
    ctx.rule = ('Shape analysis of the tree mutators and accessors over lazily materialised well-formed forests (every aliasing of self, new and their '
                'neighbours): the post-heap must equal the pre-heap with exactly the fields of "remove from old place, insert at the documented place" overwritten. One obligation per abstract path and case split.')
    F = Forest(p)
    ctx.notes['link_fields'] = {r: F.fields[i][0] for r, i in F.roles.items()}
    run_mutators(F, ctx, 'shape')
    run_accessors(F, ctx)
def C02(p, ctx):
    ctx.rule = ('Borrow-typestate analysis (RefCell borrow counters in the abstract heap) of the same mutators: no path within the contract reaches a conflicting borrow, a failed assertion or an unwrap of None, and every borrow is released at return.')
    F = Forest(p)
    run_mutators(F, ctx, 'panic')

# ------------------------------------------------------------------ iterators
def iter_seq(F, ctx, name, ctor, steps, oracle, depth, after=None):
    """explore all call sequences of length `depth` over `steps` = {label: root fn}; the oracle
    is a class with .init(S) and .step(label, S) -> expected item, raising Undecided"""
    st = State(); F.add_node(st)
    I = F.interp()
    F.cap = 8
    try:
        outs = I.run(F.p.roots[ctor], [ref(F.handle('N0'))], st)
    except Stop as e:
        ctx.undecided(name, e); return
    ctx.absorb(I)
    work = []
    for o in outs:
        if o.kind != 'ret': ctx.undecided(name, o.msg); continue
        o.state.heap['IT'] = {'val': o.value}
        work.append((o.state, ()))
    while work:
        s, hist = work.pop()
        if len(hist) >= depth: continue
        for lab, fn in steps.items():
            s2 = s.copy(); s2.frames = []
            I = F.interp()
            outs = I.run(F.p.roots[fn], [('ref', ('H', 'IT'), ())], s2)
            ctx.absorb(I); ctx.paths += len(outs)
            for o in outs:
                nm = '%s/%s' % (name, '.'.join(x[0] for x in hist) + '.' + lab)
                if o.kind == 'stuck': ctx.undecided(nm, o.msg); continue
                if o.kind == 'panic':
                    ctx.judge(nm, False, name + ':panic', '%s: %s panics (%s) at %s' % (name, lab, o.msg, o.site), o.state.taint); continue
                st_list = [o.state]
                while st_list:
                    z = st_list.pop()
                    S = Spec(F, z)
                    try:
                        w = oracle(hist + ((lab,),), S)
                    except Undecided as u:
                        st_list += F.decide(z, u.key[0], u.key[1], F.cap); continue
                    got = decode_item(F, o.value)
                    good = got == w
                    if not good:
                        ctx.judge(nm, False, '%s:%s' % (name, lab), '%s: after %s, %s yields %s, expected %s; tree: %s' % (
                            name, [x[0] for x in hist] or 'construction', lab, show_item(got), show_item(w), describe(F, z, {'start': 'N0'})), z.taint)
                        continue
                    ctx.ok(nm)
                    if after and w is not None:
                        z.frames = []
                        J = F.interp(); more = J.run(F.p.roots[after], [ref(F.handle(w))], z)
                        ctx.absorb(J); ctx.paths += len(more)
                        for q in more:
                            if q.kind == 'ret': work.append((q.state, hist + ((lab,),)))
                            else: ctx.undecided(nm, 'detaching the yielded node: %s' % q.msg)
                    else: work.append((z, hist + ((lab,),)))
    F.cap = 9

def decode_item(F, v):
    if v == NONE: return None
    if v[0] != 'adt' or v[1] != 1: return ('?', v)
    x = v[2][0]
    h = F.unhandle(x)
    if h is not None and x[1] == 0 and len(x[2]) == 1 and x[2][0][0] == 'rc': return h
    if x[0] == 'adt' and len(x[2]) == 1:
        h = F.unhandle(x[2][0])
        if h is not None: return ('Start', 'End')[x[1]] if False else (EDGE[x[1]], h)
    return ('?', v)
EDGE = {0: 'Start', 1: 'End'}
def show_item(x): return 'nothing' if x is None else str(x)

def chain_oracle(role):
    def f(hist, S):
        n = 'N0'
        for _ in hist[:-1]:
            if n is None: return None
            n = S.get(n, role)
        return n
    return f

def children_oracle(hist, S):
    """front/back cursors over the child list"""
    a, b = S.get('N0', 'first'), S.get('N0', 'last')
    done = a is None
    item = None
    for (lab,) in hist:
        if done: item = None; continue
        if lab == 'next':
            item = a
            if a == b: done = True
            else: a = S.get(a, 'next')
        else:
            item = b
            if a == b: done = True
            else: b = S.get(b, 'prev')
    return item

def succ(S, e):
    k, n = e
    if k == 'Start':
        c = S.get(n, 'first')
        return ('Start', c) if c is not None else ('End', n)
    m = S.get(n, 'next')
    return ('Start', m) if m is not None else ('End', S.get(n, 'parent'))
def pred(S, e):
    k, n = e
    if k == 'End':
        c = S.get(n, 'last')
        return ('End', c) if c is not None else ('Start', n)
    m = S.get(n, 'prev')
    return ('End', m) if m is not None else ('Start', S.get(n, 'parent'))
def traverse_oracle(hist, S):
    a, b = ('Start', 'N0'), ('End', 'N0')
    done = False; item = None
    for (lab,) in hist:
        if done: item = None; continue
        if lab == 'next':
            item = a
            if a == b: done = True
            else: a = succ(S, a)
        else:
            item = b
            if a == b: done = True
            else: b = pred(S, b)
    return item
def descendants_oracle(hist, S):
    e = ('Start', 'N0'); item = 'N0'
    for _ in hist[1:]:
        if item is None: return None
        while True:
            if e == ('End', 'N0'): item = None; break
            e = succ(S, e)
            if e[0] == 'Start': item = e[1]; break
    return item

def C18(p, ctx):
    ctx.rule = ('Shape analysis of the iterator constructors and every call sequence of next()/next_back() up to the stated length, over lazily materialised well-formed forests of unbounded size; '
                'each yielded item must be the one the document-order oracle gives, and exhaustion must come exactly when both cursors have met.')
    F = Forest(p)
    edge = [t for t in p.adt('NodeEdge')]
    if edge:
        for i, v in enumerate(p.types[edge[0]]['v']): EDGE[i] = v['n']
    deep = ctx.tier == 'thorough'
    d = dict(chain=6 if deep else 5, kids=6 if deep else 5, trav=6 if deep else 5, desc=6 if deep else 5)
    ctx.notes['call_sequence_length'] = d
    iter_seq(F, ctx, 'ancestors', 'i_ancestors', {'next': 'i_ancestors_next'}, chain_oracle('parent'), d['chain'])
    iter_seq(F, ctx, 'preceding_siblings', 'i_preceding', {'next': 'i_preceding_next'}, chain_oracle('prev'), d['chain'])
    iter_seq(F, ctx, 'following_siblings', 'i_following', {'next': 'i_following_next'}, chain_oracle('next'), d['chain'])
    iter_seq(F, ctx, 'children', 'i_children', {'next': 'i_children_next', 'next_back': 'i_children_next_back'}, children_oracle, d['kids'])
    iter_seq(F, ctx, 'traverse', 'i_traverse', {'next': 'i_traverse_next', 'next_back': 'i_traverse_next_back'}, traverse_oracle, d['trav'])
    iter_seq(F, ctx, 'descendants', 'i_descendants', {'next': 'i_descendants_next'}, descendants_oracle, d['desc'])
    # the node just yielded may be taken out of the tree before the iterator is asked for the next one
    w = 't_detach'; m = 5 if deep else 4
    iter_seq(F, ctx, 'ancestors, detaching', 'i_ancestors', {'next': 'i_ancestors_next'}, chain_oracle('parent'), m, w)
    iter_seq(F, ctx, 'preceding_siblings, detaching', 'i_preceding', {'next': 'i_preceding_next'}, chain_oracle('prev'), m, w)
    iter_seq(F, ctx, 'following_siblings, detaching', 'i_following', {'next': 'i_following_next'}, chain_oracle('next'), m, w)
    iter_seq(F, ctx, 'children, detaching', 'i_children', {'next': 'i_children_next', 'next_back': 'i_children_next_back'}, children_oracle, m, w)
    # edges are equal if they are the same end of the same node
    for x in (0, 1):
        for y in (0, 1):
            for b in ('N0', 'N1'):
                st = State(); F.add_node(st); F.add_node(st); I = F.interp()
                e = lambda k, n: ref(('adt', k, (F.handle(n),)))
                outs = I.run(F.p.roots['i_edge_eq'], [e(x, 'N0'), e(y, b)], st)
                ctx.absorb(I); ctx.paths += len(outs)
                for o in outs: check_result(F, ctx, 'NodeEdge == (%s %s)' % (EDGE[x], EDGE[y]), o, lambda S: x == y and b == 'N0')
