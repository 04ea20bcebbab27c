"""C03-C06, C17, C19: attribute, link and document operations over abstract DOM states."""
import itertools
from collections import Counter
from interp import *
import models, par
from dommode import *
from dom import handle, unhandle, ref

def owned(D, n):
    """AttributeQName -> AttributeQNameRef"""
    return ('adt', D.L.qrn['Id' if n[1] == D.L.qn['Id'] else 'Name'], n[2])
def seg(kind, *k): return ('seg', (kind,) + k)
def show(D, v, n=120):
    L = D.L
    if v[0] == 'seg': return '...'
    if v[0] == 'adt' and len(v[2]) == 2 and v[2][L.attr_f['name']][0] == 'adt':
        nm = D.lname(v)[2][0]
        nm = D.p.types[L.aid_ty]['v'][nm[1]]['n'] if nm[0] == 'adt' else str(nm[1])
        val = D.lval(v)
        t = D.link_target(val)
        return '%s=%s' % (nm, ('%s(%s)' % (L.avn[val[1]], t)) if t else (L.avn[val[1]] if val[0] == 'adt' else str(val)[:40]))
    h = unhandle(v)
    return str(h) if h is not None else str(v)[:n]

# ------------------------------------------------------------------ set / remove attribute
PRE = ('absent', 'simple', 'Link', 'FuncLink', 'Paint')
def name_of(D, kind): return ('adt', D.L.qn['Id'], (('sym', 'nameid'),)) if kind == 'id' else ('adt', D.L.qn['Name'], (('sym', 'namestr'),))
def nonlink(D, st, v):
    st.facts[('t', 'discr', v, D.L.av_ty)] = ('!', frozenset(D.p.types[D.L.av_ty]['v'][D.L.av[l]]['d'] for l in LINKS))

def attr_config(D, nk, pre, twice=False, U=None, ulinks=False, rel=None, users=0, backk='FuncLink'):
    """S carries (or not) an attribute n; T is its old target, U the new one"""
    L = D.L; B = D.new(); n = name_of(D, nk)
    back = lambda: L.attr({'FuncLink': ('adt', L.qn['Name'], (('sym', 'backname'),)), 'Paint': idn(D, 'Fill'), 'Link': idn(D, 'Href'), 'Mask': idn(D, 'Mask')}[backk], B.link('FuncLink' if backk == 'Mask' else backk, 'S', NONE if backk == 'Paint' else None))
    at = [seg('attrs', 'S1', n)]
    if pre == 'simple': at.append(L.attr(n, ('sym', 'old')))
    elif pre != 'absent': at.append(L.attr(n, B.link(pre, 'T', ('sym', 'oldfb') if pre == 'Paint' else None)))
    m = ('adt', L.qn['Name'], (('sym', 'othername'),))
    if twice:
        at.append(L.attr(m, B.link('FuncLink', 'T')))
        at[0] = seg('attrs', 'S1', n, m)
        B.distinct(n, m)
    at.append(seg('attrs', 'S2', *at[0][1][2:]))
    B.node('S', attrs=at, linked=[seg('nodes', 'S1')] + (['*', seg('nodes', 'S2')] if ulinks else []), id=('sym', 'idS'))
    B.node('T', attrs=[seg('attrs', 'T1')] + ([back()] if ulinks == 'T' else []),
           linked=[seg('nodes', 'T1'), '*', seg('nodes', 'T2')], id=('sym', 'idT'))
    if U == 'U':
        B.node('U', attrs=[seg('attrs', 'U1')] + ([back()] if ulinks else []), linked=[seg('nodes', 'U1')], id=('sym', 'idU'))
    if rel:      # the place of the new target relative to the node, and how many nodes use it already
        if users:
            B.node('X', attrs=[L.attr(strn(D, 'u%d' % i), B.link('FuncLink', 'U')) for i in range(users)], id=('str', 'xx'))
            B.n['U']['linked'] = ['*']
        up = lambda n, *k: B.n[n]['kids'].extend(k)
        B.node('G', tag=('adt', L.qn['Id'], (('sym', 'tagG'),)), id=('str', 'gg'))
        if rel == 'parent': up('U', 'S')
        elif rel == 'ancestor': up('U', 'G'); up('G', 'S')
        elif rel == 'child': up('S', 'U')
        elif rel == 'descendant': up('S', 'G'); up('G', 'U')
        elif rel == 'next': up('G', 'S', 'U')
        elif rel == 'previous': up('G', 'U', 'S')
    st = B.state()
    nonlink(D, st, ('sym', 'old')); nonlink(D, st, ('sym', 'new'))
    return st, n

class Case: pass
def run_case(D, ctx, label, root, args, st, **kw):
    """st: a state, or a function building it; where the summarised state cannot be followed (index arithmetic over a list of unknown length), states with 0, 1 and 2 explicit elements per segment are explored as well"""
    if callable(st):
        r = run_case(D, ctx, label, root, args, st(), **kw)
        if any(c.o.kind == 'stuck' or c.o.state.taint for c in r):
            for k in (0, 1, 2):
                D.small = k
                try: r += run_case(D, ctx, '%s with %d other elements' % (label, k), root, args, st(), **kw)
                finally: D.small = None
        return r
    pre = D.snap(st)
    I = D.interp()
    r = []
    for o in I.run(D.p.roots[root], args, st):
        c = Case(); c.label = label; c.o = o; c.pre = pre; c.I = I; c.kw = kw
        c.post = D.snap(o.state) if o.kind == 'ret' else None
        r.append(c)
    ctx.absorb(I); ctx.paths += len(r)
    return r

def attr_cases(D, ctx):
    c = getattr(D, '_attr_cases', None)
    if c is not None: return c
    L = D.L; out = []
    for nk in ('id', 'str'):
        for pre in PRE:
            for twice in ((False, True) if pre in LINKS else (False,)):
                st, n = attr_config(D, nk, pre, twice)
                lab = '%s name, %s before%s' % (nk, pre, ', second link' if twice else '')
                mk = lambda: attr_config(D, nk, pre, twice)[0]
                out += run_case(D, ctx, 'remove_attribute (%s)' % lab, 'n_remove_attribute', [mref('S'), owned(D, n)], mk, op='remove', n=n, tw=twice, prev=pre)
                for fn in ('n_set_attribute_checked', 'n_set_attribute', 'n_set_attribute_if_none'):
                    out += run_case(D, ctx, '%s plain value (%s)' % (fn[2:], lab), fn, [mref('S'), L.attr(n, ('sym', 'new'))], mk, op=fn[2:], n=n, val=('sym', 'new'), target=None, prev=pre)
            for U in ['U', 'S'] + (['T'] if pre in LINKS else []):
                for ul in (False, True):
                    if ul and U == 'S': continue
                    ul2 = U if ul else False
                    for kind in LINKS:
                        if kind == 'Link' and nk == 'str': continue
                        for fn in ('n_set_attribute_checked', 'n_set_attribute', 'n_set_attribute_if_none'):
                            if fn != 'n_set_attribute_checked' and (kind != 'Paint' or U == 'S'): continue
                            n = name_of(D, nk)
                            mk = lambda: attr_config(D, nk, pre, False, 'U' if U == 'U' else None, ul2)[0]
                            v = L.val('Paint', handle(U), ('sym', 'newfb')) if kind == 'Paint' else L.val(kind, handle(U))
                            out += run_case(D, ctx, '%s %s to %s (%s name, %s before%s)' % (fn[2:], kind, {'S': 'itself', 'T': 'the old target', 'U': 'a node'}[U], nk, pre, ', target links back' if ul else ''),
                                            fn, [mref('S'), L.attr(n, v)], mk, op=fn[2:], n=n, val=v, target=U, prev=pre, back=ul)
    for backk in ('Paint', 'Link', 'Mask'):      # whatever the kind of the link back
        for pre, U in (('absent', 'U'), ('simple', 'U'), ('FuncLink', 'U'), ('FuncLink', 'T')):
            for kind in LINKS:
                n = name_of(D, 'id'); v = L.val('Paint', handle(U), ('sym', 'newfb')) if kind == 'Paint' else L.val(kind, handle(U))
                out += run_case(D, ctx, 'set_attribute_checked %s to %s that links back with a %s (%s before)' % (kind, {'T': 'the old target', 'U': 'a node'}[U], backk, pre), 'n_set_attribute_checked', [mref('S'), L.attr(n, v)],
                                lambda: attr_config(D, 'id', pre, False, 'U' if U == 'U' else None, U, backk=backk)[0], op='set_attribute_checked', n=n, val=v, target=U, prev=pre, back=True)
    for rel in ('parent', 'ancestor', 'child', 'descendant', 'next', 'previous'):
        for users in (0, 1, 5):
            n = name_of(D, 'str'); v = L.val('FuncLink', handle('U'))
            out += run_case(D, ctx, 'set_attribute_checked FuncLink to the %s with %d users' % (rel, users), 'n_set_attribute_checked', [mref('S'), L.attr(n, v)],
                            lambda: attr_config(D, 'str', 'absent', False, 'U', False, rel, users)[0], op='set_attribute_checked', n=n, val=v, target='U', prev='absent', back=False)
    D._attr_cases = out
    return out

def cond(I, st, t):
    t = I.simp(st, t)
    return bool(t[1]) if t[0] == 'int' else None
def mentions(st, s, known):
    """the path looked at string s in a way the analysis does not interpret"""
    def has(t): return t == s or (isinstance(t, tuple) and any(has(x) for x in t if isinstance(x, tuple)))
    return any(has(k) and k not in known for k in st.facts if k[0] == 't')
def link_conditions(D, c):
    """(no id, crosslink) truth of the rejection conditions on this path: True / False / None"""
    st = c.o.state; I = c.I
    tid = c.pre[c.kw['target']]['id']; sid = c.pre['S']['id']
    c1 = cond(I, st, models.isempty(I, st, tid))
    e = models.streq(I, st, sid, tid)
    c2 = cond(I, st, e)
    if c1 is None and c2: c1 = cond(I, st, models.isempty(I, st, sid))
    if c.kw.get('back'): c2 = True
    return c1, c2, tid, sid

def expected_kind(D, st, n):
    """set of kinds the stored link may have, given what the path knows about the name"""
    L = D.L
    if n[1] != L.qn['Id']: return {'FuncLink'}
    d = ('t', 'discr', n[2][0], L.aid_ty)
    vs = D.p.types[L.aid_ty]['v']
    f = st.facts.get(d)
    def kind(i): return 'Link' if vs[i]['n'] == 'Href' else 'Paint' if vs[i]['n'] in ('Fill', 'Stroke') else 'FuncLink'
    if f is None: poss = range(len(vs))
    elif f[0] == '=': poss = [i for i in range(len(vs)) if vs[i]['d'] == f[1]]
    else: poss = [i for i in range(len(vs)) if vs[i]['d'] not in f[1]]
    return {kind(i) for i in poss}

def expected_post(D, c):
    """expected snapshot pieces for a successful operation: (attrs of S, linked changes)"""
    k = c.kw; pre = c.pre
    st = c.o.state
    attrs = [a for a in pre['S']['attrs'] if a[0] == 'seg' or D.lname(a) != k['n']]
    old = [a for a in pre['S']['attrs'] if a[0] != 'seg' and D.lname(a) == k['n']]
    delta = Counter()
    if k['op'] == 'set_attribute_if_none' and old: return list(pre['S']['attrs']), delta, None
    for a in old:
        t = D.link_target(D.lval(a))
        if t: delta[t] -= 1
    if k['op'] == 'remove': return attrs, delta, None
    if k['target']:
        delta[k['target']] += 1
        return attrs, delta, expected_kind(D, st, k['n'])
    return attrs + [D.L.attr(k['n'], k['val'])], delta, None

def segfacts_ok(c): return not c.o.state.ghost.get('segwrite')

def settle(ctx, c, name):
    """common treatment of a path; True if it returned and can be judged"""
    if c.o.kind == 'stuck': ctx.undecided(name, c.o.msg); return False
    if c.o.kind == 'ret' and c.o.state.taint: ctx.undecided(name, c.o.state.taint); return False
    return True

def is_ok(c):
    if c.kw['op'] in ('set_attribute_checked',):
        return c.o.value[0] == 'adt' and c.o.value[1] == 0
    return True
ERRN = {}
def err_name(D, c):
    v = c.o.value
    if v[0] == 'adt' and v[1] == 1 and v[2] and v[2][0][0] == 'adt':
        t = D.p.adt('Error')
        for x in t:
            vs = D.p.types[x]['v']
            if any(y['n'] == 'ElementCrosslink' for y in vs): return vs[v[2][0][1]]['n']
    return '?'

def unchanged(D, c, but=()):
    """names of nodes/fields that differ between pre and post"""
    diff = []
    for n, e in c.pre.items():
        q = c.post.get(n)
        if q is None: diff.append((n, 'node lost')); continue
        for f in e:
            if f == 'bor': continue
            if (n, f) in but: continue
            a, b = e[f], q[f]
            if f in ('attrs', 'linked'):
                if (list(a) != list(b) if f == 'attrs' else Counter(a) != Counter(b)): diff.append((n, f))
            elif a != b: diff.append((n, f))
    return diff

def inv_diff(D, snap, nodes=None):
    """link bookkeeping: for every pair the number of entries equals the number of link attributes"""
    want = Counter(); got = Counter()
    for n, e in snap.items():
        for a in e['attrs']:
            if a[0] == 'seg': continue
            t = D.link_target(D.lval(a)) if a[0] == 'adt' else None
            if t is not None: want[(n, t)] += 1
        for h in e['linked']:
            if h[0] == 'seg': continue
            got[(unhandle(h), n)] += 1
    return [(x, t, got[(x, t)], want[(x, t)]) for (x, t) in set(want) | set(got) if want[(x, t)] != got[(x, t)]]

def key_of(c): return '%s:%s' % (c.kw['op'], c.label.split('(')[0].strip().replace(' ', '_'))

def C03(p, ctx):
    ctx.rule = ('Abstract interpretation of remove_attribute, set_attribute, set_attribute_checked and set_attribute_if_none over a node with any number of unrelated attributes and any name; old value absent, plain or a link to T (once or twice), '
                'new value plain or a link to a fresh node, the old target or itself; linked lists with any number of other users. Post-condition per path: every linked list is the old one plus/minus exactly the links the operation added/removed '
                '(multiset), i.e. count of X in T.linked_nodes == number of attributes of X linking to T.')
    D = Dom(p)
    for i, c in enumerate(attr_cases(D, ctx)):
        nm = '%s #%d' % (c.label, i)
        if c.o.kind != 'ret':
            if c.o.kind == 'stuck': ctx.undecided(nm, c.o.msg)
            elif c.kw['op'] == 'remove':
                ctx.judge(nm, False, key_of(c) + ':panic', '%s panics: %s at %s' % (c.label, c.o.msg, c.o.site), c.o.state.taint)
            continue
        if not settle(ctx, c, nm): continue
        bad = inv_diff(D, c.post)
        txt = '; '.join('%s appears %d times in linked_nodes of %s but has %d links to it' % (x, g, t, w) for x, t, g, w in bad[:3])
        lost = [n for n in c.pre if Counter(x for x in c.pre[n]['linked'] if x[0] == 'seg') != Counter(x for x in c.post[n]['linked'] if x[0] == 'seg')]
        if lost: txt = (txt + '; ' if txt else '') + 'links of unrelated nodes are lost in linked_nodes of %s' % lost[0]
        left = [n for n, e in c.post.items() if e['bor']]
        if left: txt = (txt + '; ' if txt else '') + '%s is still borrowed at return' % left[0]
        ctx.judge(nm, not txt, key_of(c), '%s: %s' % (c.label, txt))
        if not txt and i < 4: ctx.samples.append(nm)
    # uses_count / is_used report the list
    L = D.L
    for items, n in (([], 0), (['T'], 1), (['T', 'T'], 2)):
        B = D.new(); B.node('T'); B.node('S', linked=[handle(x) for x in items]); st = B.state()
        for root, w in (('n_uses_count', ('int', n)), ('n_is_used', boolv(n > 0))):
            for c in run_case(D, ctx, root, root, [mref('S')], st.copy(), op=root):
                if c.o.kind == 'ret': ctx.judge(root + str(n), c.o.value == w, root, '%s is %s for %d links' % (root[2:], c.o.value, n), c.o.state.taint)
                else: ctx.undecided(root, c.o.msg)
    document_links(D, ctx)

def C05(p, ctx):
    ctx.rule = ('Same exploration as C03, judged for acceptance: on every path that stores a link the target is known to have a non-empty id that differs from the own id and does not link to the node; every path that reports an error has one of '
                'these conditions established, reports the matching error and leaves every node unchanged; set_attribute panics exactly where set_attribute_checked reports an error; plain values are always accepted.')
    D = Dom(p)
    for i, c in enumerate(attr_cases(D, ctx)):
        nm = '%s #%d' % (c.label, i)
        if c.kw['op'] == 'remove': continue
        if c.o.kind == 'stuck': ctx.undecided(nm, c.o.msg); continue
        if c.o.state.taint: ctx.undecided(nm, c.o.state.taint); continue
        op = c.kw['op']
        noop = op == 'set_attribute_if_none' and c.kw['prev'] != 'absent'
        rejected = c.o.kind == 'panic' or not is_ok(c)
        if not c.kw['target'] or noop:
            ctx.judge(nm, not rejected, key_of(c) + ':rejected', '%s is rejected (%s)' % (c.label, c.o.msg or err_name(D, c)))
            continue
        c1, c2, tid, sid = link_conditions(D, c)
        st = c.o.state
        if not rejected:
            if c1 is False and c2 is False: ctx.ok(nm)
            elif (c1 is None and mentions(st, tid, {('t', 'isempty', tid)})) or (c2 is None and mentions(st, sid, ())): ctx.undecided(nm, 'id test not understood')
            else:
                ctx.violated(nm, key_of(c) + ':accepted', '%s: the link is accepted although %s' % (c.label, 'the target may have no id' if c1 is not False else 'the target may have the same id or link back' ))
            continue
        good = c1 or c2
        if c1 is None and c2 is None and mentions(st, tid, ()): ctx.undecided(nm, 'id test not understood'); continue
        if not good:
            ctx.violated(nm, key_of(c) + ':wrongly-rejected', '%s: rejected (%s) although the target has an id of its own and does not link back' % (c.label, c.o.msg or err_name(D, c))); continue
        if c.o.kind == 'ret':
            e = err_name(D, c)
            allowed = {'ElementMustHaveAnId'} if c1 or c1 is None else {'ElementCrosslink'}
            if c1 is None and e not in allowed and mentions(st, tid, {('t', 'isempty', tid), ('t', 'streq') + tuple(sorted((sid, tid), key=repr))}): ctx.undecided(nm, 'id test not understood'); continue
            d = unchanged(D, c)
            if e not in allowed: ctx.violated(nm, key_of(c) + ':error', '%s: reports %s, expected %s' % (c.label, e, '/'.join(sorted(allowed))))
            elif d or not segfacts_ok(c): ctx.violated(nm, key_of(c) + ':not-atomic', '%s: reports %s but has changed %s' % (c.label, e, d[:3] or 'an unrelated attribute'))
            else: ctx.ok(nm, nm if i % 97 == 0 else None)
        else:
            # set_attribute: the unwrap of the reported error; the DOM must be as before as well
            c.post = D.snap(c.o.state); d = unchanged(D, c)
            ctx.judge(nm, not d, key_of(c) + ':panic-not-atomic', '%s: panics after having changed %s' % (c.label, d[:3]))

def C06(p, ctx):
    ctx.rule = ('Same exploration as C03, judged for the attribute list: after a successful operation the list is the old one without the named attribute plus (for set) exactly one attribute with that name, the given value and, for links, the kind that belongs '
                'to the name (href: Link, fill/stroke: Paint with the given fallback, otherwise FuncLink); nothing else of any node changes. Attributes::get/get_value/get_mut/contains/len/is_empty agree with the list for any list and name.')
    D = Dom(p); L = D.L
    for i, c in enumerate(attr_cases(D, ctx)):
        nm = '%s #%d' % (c.label, i)
        if c.o.kind == 'stuck': ctx.undecided(nm, c.o.msg); continue
        if c.o.kind == 'panic':
            if c.kw['op'] == 'remove' or (c.kw['op'] == 'set_attribute_if_none' and c.kw['prev'] != 'absent') or not c.kw.get('target'):
                ctx.judge(nm, False, key_of(c) + ':panic', '%s panics: %s at %s' % (c.label, c.o.msg, c.o.site), c.o.state.taint)
            continue
        if not settle(ctx, c, nm) or not is_ok(c): continue
        if any(x[0] == 'attrs' for x in c.o.state.ghost.get('reordered', ())): ctx.violated(nm, key_of(c) + ':order', '%s changes the order of the other attributes' % c.label); continue
        if not segfacts_ok(c): ctx.violated(nm, key_of(c) + ':others', '%s modifies an attribute with another name' % c.label); continue
        attrs, delta, kinds = expected_post(D, c)
        got = list(c.post['S']['attrs'])
        if kinds is not None:
            mine = [a for a in got if a[0] == 'adt' and D.lname(a) == c.kw['n']]
            rest = [a for a in got if not (a[0] == 'adt' and D.lname(a) == c.kw['n'])]
            ok = len(mine) == 1 and rest == attrs
            why = 'attribute list is %s' % [show(D, a) for a in got]
            if ok:
                v = D.lval(mine[0]); k = L.avn[v[1]] if v[0] == 'adt' else '?'
                fb = c.kw['val'][2][1] if L.avn[c.kw['val'][1]] == 'Paint' else NONE
                if D.link_target(v) != c.kw['target']: ok = False; why = 'the stored link points to %s' % D.link_target(v)
                elif kinds != {k}: ok = False; why = 'the link is stored as %s, the name asks for %s' % (k, '/'.join(sorted(kinds)))
                elif k == 'Paint' and v[2][1] != fb: ok = False; why = 'the paint fallback is %s instead of %s' % (str(v[2][1])[:60], str(fb)[:60])
        else:
            mine = lambda a: a[0] == 'adt' and D.lname(a) == c.kw['n']
            ok = Counter(got) == Counter(attrs) and [a for a in got if not mine(a)] == [a for a in attrs if not mine(a)]
            why = 'attribute list is %s, expected %s' % ([show(D, a) for a in got], [show(D, a) for a in attrs])
        if ok:
            d = unchanged(D, c, {('S', 'attrs')} | {(n, 'linked') for n in c.pre})
            if d: ok = False; why = 'it also changes %s' % d[:3]
        ctx.judge(nm, ok, key_of(c), '%s: %s' % (c.label, why))
    lookups(D, ctx)

def lookups(D, ctx):
    L = D.L
    for nk in ('id', 'str'):
        for present in (True, False):
            n = name_of(D, nk)
            items = [seg('attrs', 'a', n)] + ([L.attr(n, ('sym', 'val'))] if present else []) + [seg('attrs', 'b', n)]
            for root in ('a_get', 'a_get_mut', 'a_get_value', 'a_get_value_mut', 'a_contains', 'n_has_attribute'):
                def mk():
                    B = D.new(); B.node('S', attrs=items); st = B.state()
                    if root != 'n_has_attribute': st.heap['A'] = {'val': st.heap['S']['val'][2][L.data_i][2][L.f['attrs']]}; del st.heap['S']
                    return st
                arg = mref('S') if root == 'n_has_attribute' else ('ref', ('H', 'A'), ())
                for c in run_case(D, ctx, root, root, [arg, owned(D, n)], mk):
                    o = c.o; I = c.I
                    nm = '%s %s %s' % (root, nk, 'present' if present else 'absent')
                    if o.kind == 'stuck': ctx.undecided(nm, o.msg); continue
                    if o.kind == 'panic': ctx.judge(nm, False, root + ':panic', '%s panics: %s' % (root, o.msg), o.state.taint); continue
                    v = o.value
                    if root in ('a_contains', 'n_has_attribute'): good = v == boolv(present)
                    elif not present: good = v == NONE
                    else:
                        good = v[0] == 'adt' and v[1] == 1
                        if good:
                            x = models.deep(I, o.state, v[2][0])
                            good = x == (L.attr(n, ('sym', 'val')) if 'value' not in root else ('sym', 'val'))
                    ctx.judge(nm, good, root, '%s (%s name, %s) gives %s' % (root, nk, 'present' if present else 'absent', str(v)[:150]), o.state.taint)
    # names are compared exactly: case, spaces, prefixes and id-versus-text distinguish
    names = ['a', 'A', ' a', 'a ', 'ab', 'fill', 'Fill', 'xlink:href', 'href', '\u00e9', '']
    for have in names:
        for ask in names:
            for root in ('a_get', 'a_get_value', 'a_contains', 'n_has_attribute'):
                n = ('adt', L.qn['Name'], (('str', have),)); q = ('adt', L.qrn['Name'], (('str', ask),))
                st = State()
                if root == 'n_has_attribute':
                    B = D.new(); B.node('S', attrs=[L.attr(n, ('sym', 'val'))]); st = B.state()
                else: st.heap['A'] = {'val': ('adt', 0, (('vec', (L.attr(n, ('sym', 'val')),)),))}
                for c in run_case(D, ctx, root, root, [mref('S') if root == 'n_has_attribute' else ('ref', ('H', 'A'), ()), q], st):
                    o = c.o; nm = '%s of concrete names' % root
                    if o.kind != 'ret' or o.state.taint: ctx.undecided(nm, o.msg or sorted(map(str, o.state.taint))); continue
                    found = o.value == TRUE if root in ('a_contains', 'n_has_attribute') else o.value[0] == 'adt' and o.value[1] == 1
                    ctx.judge(nm, found == (have == ask), root + ':names', '%s: looking for %r in a list with %r %s' % (root, ask, have, 'succeeds' if found else 'fails'))
    for k in (0, 1, 3):
        st = State(); st.heap['A'] = {'val': ('adt', 0, (('vec', tuple(L.attr(('adt', L.qn['Name'], (('sym', 'n%d' % j),)), ('sym', 'v%d' % j)) for j in range(k))),))}
        for root, w in (('a_len', ('int', k)), ('a_is_empty', boolv(k == 0))):
            I = D.interp()
            for o in I.run(D.p.roots[root], [('ref', ('H', 'A'), ())], st.copy()):
                if o.kind == 'ret': ctx.judge('%s/%d' % (root, k), o.value == w, root, '%s of %d attributes is %s' % (root, k, o.value), o.state.taint)
                else: ctx.undecided(root, o.msg)

    # iteration yields every attribute once, in order
    for k in (0, 1, 2, 3, 5):
        A = [L.attr(('adt', L.qn['Name' if j % 2 else 'Id'], (('sym', 'n%d' % j),)), ('sym', 'v%d' % j)) for j in range(k)]
        for root, sink in (('a_iter', 'sink_any'), ('a_iter_mut', 'sink_any_mut'), ('a_into_iter', 'sink_own')):
            st = State(); st.heap['A'] = {'val': ('adt', 0, (('vec', tuple(A)),))}
            I = D.interp()
            def ob(I, st, inst, args):
                if inst.path.split('::')[-1] == sink: st.ev = st.ev + (('sink', models.deep(I, st, args[0])),)
            I.observers.append(ob)
            nm = '%s over %d attributes' % (root, k)
            try: outs = I.run(D.p.roots[root], [('ref', ('H', 'A'), ()) if root != 'a_into_iter' else st.heap['A']['val']], st)
            except Stop as e: ctx.undecided(nm, e); continue
            ctx.absorb(I); ctx.paths += len(outs)
            for o in outs:
                if o.kind != 'ret' or o.state.taint: ctx.undecided(nm, o.msg or o.state.taint); continue
                got = [e[1] for e in o.state.ev]
                ctx.judge(nm, got == A, root, '%s yields %s' % (nm, [show(D, x) for x in got]))

# ------------------------------------------------------------------ documents
def idn(D, n): return ('adt', D.L.qn['Id'], (('adt', D.L.aid[n], ()),))
def strn(D, n): return ('adt', D.L.qn['Name'], (('str', n),))
def simple(D, k='Number', *v): return D.L.val(k, *(v or (('sym', 'payload_' + k),)))
def anyval(B, n):
    """an unknown value that is not a link"""
    B.plain.append(('sym', n)); return ('sym', n)

def doc_forest(D, variant):
    """explicit documents around a subtree N; X*: users outside, T*: targets outside"""
    L = D.L; B = D.new()
    at = lambda n, v: L.attr(n, v)
    fb = some(('adt', 0, ()))
    N = []; X1 = []; X2 = []; G = []; C1 = []; C2 = []
    kidsN = ['C1', 'C2']; kidsC = ['G', 'TX']
    if variant == 'full':
        N = [seg('attrs', 'N', idn(D, 'Fill'), idn(D, 'Href')), at(idn(D, 'Fill'), B.link('Paint', 'T1', fb)), at(idn(D, 'Href'), B.link('Link', 'T2'))]
        X1 = [at(idn(D, 'Fill'), B.link('Paint', 'N', fb)), at(idn(D, 'Opacity'), anyval(B, 'plain0')), at(idn(D, 'Stroke'), B.link('Paint', 'N'))]
        X2 = [at(idn(D, 'ClipPath'), B.link('FuncLink', 'G')), at(idn(D, 'Mask'), B.link('FuncLink', 'N')), at(idn(D, 'Filter'), B.link('FuncLink', 'T1'))]
        G = [at(idn(D, 'Href'), B.link('Link', 'T1'))]
        C1 = [at(idn(D, 'Mask'), B.link('FuncLink', 'C2')), at(idn(D, 'Opacity'), anyval(B, 'plain1'))]
        C2 = [at(idn(D, 'ClipPath'), B.link('FuncLink', 'N'))]
    elif variant == 'names':
        N = [at(strn(D, 'nonsvg'), B.link('FuncLink', 'T1')), at(idn(D, 'X'), anyval(B, 'plain2')), at(strn(D, 'other'), B.link('FuncLink', 'T1'))]
        X1 = [at(strn(D, 'nonsvg'), B.link('FuncLink', 'N')), at(idn(D, 'Href'), B.link('Link', 'N'))]
        X2 = [at(strn(D, 'nonsvg'), B.link('FuncLink', 'G')), at(idn(D, 'Fill'), B.link('Paint', 'T1'))]
    elif variant == 'leaf':
        kidsN = []; kidsC = []
        N = [at(idn(D, 'Opacity'), anyval(B, 'plain3'))]
        X1 = [at(idn(D, 'Href'), B.link('Link', 'N'))]
        X2 = [at(idn(D, 'Href'), B.link('Link', 'N')), at(idn(D, 'Fill'), B.link('Paint', 'N')), at(idn(D, 'Stroke'), B.link('Paint', 'T1'))]
    elif variant == 'many':
        kidsN = ['C1']; kidsC = []
        nm = [('Href', 'Link'), ('Fill', 'Paint'), ('Stroke', 'Paint'), ('ClipPath', 'FuncLink'), ('Mask', 'FuncLink'), ('Filter', 'FuncLink'), ('MarkerStart', 'FuncLink'), ('MarkerMid', 'FuncLink')]
        X1 = [at(idn(D, a), B.link(b, 'N')) for a, b in nm] + [at(idn(D, 'Opacity'), anyval(B, 'plain7')), at(idn(D, 'MarkerEnd'), B.link('FuncLink', 'N')), at(strn(D, 'own'), B.link('FuncLink', 'N'))]
        X2 = [at(idn(D, a), B.link(b, 'C1' if i % 2 else 'N')) for i, (a, b) in enumerate(nm)]
        C1 = [at(idn(D, a), B.link(b, 'T2')) for a, b in nm]
    elif variant == 'only':
        kidsN = ['C1']; kidsC = ['G']
        G = [at(idn(D, 'Fill'), B.link('Paint', 'T1', fb)), at(idn(D, 'Stroke'), B.link('Paint', 'T1'))]
        X2 = [at(idn(D, 'Stroke'), B.link('Paint', 'G')), at(idn(D, 'Fill'), B.link('Paint', 'C1'))]
    elif variant == 'inner':
        N = [at(idn(D, 'Fill'), B.link('Paint', 'C1'))]
        C2 = [at(idn(D, 'Fill'), B.link('Paint', 'G')), at(idn(D, 'Stroke'), B.link('Paint', 'G'))]
        G = [at(idn(D, 'Mask'), B.link('FuncLink', 'T2'))]
        X1 = [at(idn(D, 'Fill'), B.link('Paint', 'C2'))]
    B.node('ROOT', 'Root', kids=['SVG'])
    B.node('SVG', kids=(['N'] if variant == 'only' else ['T1', 'N', 'X2', 'T2']), tag=('adt', L.qn['Id'], (('adt', L.eid['Svg'], ()),)))
    B.node('T1', kids=(['X1'] if variant != 'only' else [])); B.node('T2')
    B.node('X1', attrs=X1); B.node('X2', attrs=X2)
    B.node('N', attrs=N, kids=kidsN)
    if kidsN:
        B.node('C1', attrs=C1, kids=kidsC)
        if 'C2' in kidsN: B.node('C2', attrs=C2)
        if kidsC:
            B.node('G', attrs=G)
            if 'TX' in kidsC: B.node('TX', 'Text')
    for n, e in B.n.items():
        if e['kind'] == 'Element': e['id'] = ('sym', 'ident' + n)
    return B.state()
VARIANTS = ('full', 'names', 'leaf', 'only', 'inner', 'many')

# ---- systematically generated subtrees: every ordered tree up to a size, every kind of node in every place
def trees(n):
    if n == 1: return [()]
    def forests(k):
        if k == 0: return [()]
        return [(t,) + f for i in range(1, k + 1) for t in trees(i) for f in forests(k - i)]
    return forests(n - 1)
def size(t): return 1 + sum(map(size, t))
def inner(t):
    r = [bool(t)]
    for c in t: r += inner(c)
    return r
def tree_text(t, kinds):
    it = iter(kinds)
    def w(t):
        k = next(it)
        return k + ('(%s)' % ' '.join([w(c) for c in t]) if t else '')
    return w(t)
def shape_jobs(n, leaves='EMTC', inners='EM'):
    for m in range(1, n + 1):
        for t in trees(m):
            for ks in itertools.product(*[inners if i else leaves for i in inner(t)]): yield t, ''.join(ks)
def wide_jobs():
    yield ((),) * 6, 'EETCMEE'
    yield ((),) * 6, 'METTCCM'
    yield (((((((),),),),),),), 'EMEMEMT'
    t = (((), ((), ((), ()))), (), ((), ()))
    yield t, ''.join(('EM' if x else 'TECM')[n % (2 if x else 4)] for n, x in enumerate(inner(t)))
def shape_doc(D, t, kinds, links, place='svg'):
    """a document around the subtree N of the given shape; E: SVG element, M: element with another name, T: text, C: comment.
    With links every element of the subtree links to T1 and is linked from X"""
    L = D.L; B = D.new(); at = L.attr
    names = []; X = []; Y = []
    pool = [('Href', 'Link'), ('Fill', 'Paint'), ('Mask', 'FuncLink'), ('Stroke', 'Paint'), ('ClipPath', 'FuncLink'), ('Filter', 'FuncLink'), ('MarkerStart', 'FuncLink'), ('MarkerMid', 'FuncLink'), ('MarkerEnd', 'FuncLink')]
    def put(t):
        i = len(names); n = 'N' if not i else 'N%d' % i; names.append(n)
        k = kinds[i]; kids = [put(c) for c in t]
        if k in 'TC': B.node(n, 'Text' if k == 'T' else 'Comment', kids=kids); return n
        a = [at(idn(D, 'Opacity'), anyval(B, 'plain' + n))] if k == 'E' else [at(strn(D, 'own'), anyval(B, 'plain' + n))]
        if links:
            nm, kd = pool[i % len(pool)]
            a.append(at(idn(D, nm), B.link(kd, 'T1'))); X.append(at(idn(D, nm) if i < len(pool) else strn(D, 'x%d' % i), B.link(kd if i < len(pool) else 'FuncLink', n)))
            if i % 2 == 0: Y.append(at(strn(D, 'y%d' % i), B.link('FuncLink', n)))
        B.node(n, attrs=a, kids=kids, tag=('adt', L.qn['Id' if k == 'E' else 'Name'], (('sym', 'tag' + n),)), id=('sym', 'ident' + n))
        return n
    put(t)
    B.node('ROOT', 'Root', kids=['SVG'] + (['N'] if place == 'root' else []))
    B.node('SVG', kids=['N'] if place == 'loose' else (['T1', 'N', 'X'] if place == 'svg' else ['T1', 'X']) + (['Y'] if Y else []), tag=('adt', L.qn['Id'], (('adt', L.eid['Svg'], ()),)))
    B.node('T1', id=('sym', 'identT')); B.node('X', attrs=X)
    if Y: B.node('Y', attrs=Y)
    st = B.state()
    st.facts[('t', 'isempty', ('sym', 'identT'))] = ('=', 0)
    for n in names:                                     # the ids are those of an admissible document: no element has the id of the target
        st.facts[('t', 'streq') + tuple(sorted((('sym', 'ident' + n), ('sym', 'identT')), key=repr))] = ('=', 0)
    return st
def shape_removals(D, ctx, t, kinds, links, place):
    ps = storage(D, shape_doc(D, t, kinds, links, place))
    return run_case(D, ctx, 'remove_node of %s%s%s' % (tree_text(t, kinds), ' with links' if links else '', {'svg': '', 'root': ' below the root', 'alone': ' unattached', 'loose': ' with the others unattached'}[place]), 'd_remove_node', [DOC, handle('N')],
                    lambda: shape_doc(D, t, kinds, links, place), op='remove_node', tops=['N'], ps=ps)
def shape_copies(D, ctx, t, kinds, links):
    for root in ('d_copy_node', 'd_copy_node_deep'):
        st = shape_doc(D, t, kinds, links); ps = storage(D, st)
        yield from run_case(D, ctx, '%s of %s%s' % (root[2:], tree_text(t, kinds), ' with links' if links else ''), root, [DOC, handle('N')], st, op=root[2:], ps=ps)

def storage(D, st):
    v = st.heap['DOC']['val'][2][D.doc_f['storage']]
    return {e[2][0]: unhandle(e[2][1]) for e in v[1] if e[0] == 'adt'} if v[0] == 'vec' else None
def subtree(snap, n):
    r = [n]
    for c in snap[n]['kids']: r += subtree(snap, c)
    return r

def after_removal(D, pre, removed_tops, post, st_store, pre_store):
    """differences to the expected DOM after removing the subtrees; [] if none"""
    gone = set()
    for t in removed_tops: gone |= set(subtree(pre, t))
    why = []
    for n, e in pre.items():
        q = post.get(n)
        if q is None:
            if n not in gone: why.append('node %s disappears' % n)
            continue
        if n in gone:
            if q['key'] != NONE: why.append('%s is not marked as detached' % n)
            for r in ('parent', 'prev', 'next', 'first', 'last'):
                if q[r] is not None: why.append('%s keeps its %s link' % (n, r)); break
            if [a for a in q['attrs'] if a[0] == 'adt' and D.link_target(D.lval(a))]: why.append('removed node %s still links to %s' % (n, [D.link_target(D.lval(a)) for a in q['attrs'] if a[0] == 'adt' and D.link_target(D.lval(a))][0]))
            if [h for h in q['linked'] if h[0] != 'seg']: why.append('linked_nodes of the removed node %s still contains %s' % (n, [unhandle(h) for h in q['linked']][0]))
            continue
        if q['key'] != e['key']: why.append('storage key of %s changes' % n)
        for f in ('id', 'text', 'type', 'tag'):
            if q[f] != e[f]: why.append('%s of %s changes' % (f, n))
        wk = [k for k in e['kids'] if k not in removed_tops]
        if q['kids'] != wk: why.append('children of %s are %s, expected %s' % (n, q['kids'], wk))
        if q['last'] != (wk[-1] if wk else None): why.append('last child of %s is %s' % (n, q['last']))
        wl = [a for a in e['attrs'] if a[0] == 'seg' or D.link_target(D.lval(a)) not in gone]; wa = Counter(wl)
        if list(q['attrs']) != wl:
            extra = list((Counter(q['attrs']) - wa).keys()); miss = list((wa - Counter(q['attrs'])).keys())
            why.append('%s %s' % (n, 'keeps the attribute %s' % show(D, extra[0]) if extra else 'loses the attribute %s' % show(D, miss[0]) if miss else 'gets its other attributes reordered'))
        wl = Counter(h for h in e['linked'] if h[0] == 'seg' or unhandle(h) not in gone)
        if Counter(q['linked']) != wl: why.append('linked_nodes of %s is %s, expected %s' % (n, [show(D, h) for h in q['linked']], [show(D, h) for h in wl.elements()]))
    want = {k: n for k, n in pre_store.items() if n not in gone}
    if st_store != want: why.append('the document storage holds %s, expected %s' % (sorted(map(str, st_store.values())), sorted(want.values())))
    return why

TAGMODES = (('id', 'SVG'), ('name', 'non-SVG'))
def removal_jobs():
    return [(m, v, victim) for m in TAGMODES for v in VARIANTS for victim in (('N',) if v in ('leaf', 'only') else ('N', 'C1', 'T1', 'X1'))]
def tagged(f):
    """runs a case with elements of unknown SVG tags or of unknown non-SVG tags"""
    def g(D, ctx, job):
        D.tags = job[0][0]
        try:
            r = list(f(D, ctx, *job[1:]))
            for c in r: c.label += ' (%s elements)' % job[0][1]
            return r
        finally: D.tags = None
    return g
@tagged
def removal_case(D, ctx, v, victim):
    ps = storage(D, doc_forest(D, v))
    return run_case(D, ctx, 'remove_node(%s) in document "%s"' % (victim, v), 'd_remove_node', [DOC, handle(victim)], lambda: doc_forest(D, v), op='remove_node', tops=[victim], ps=ps)
def removal_cases(D, ctx):
    for j in removal_jobs(): yield from removal_case(D, ctx, j)
@tagged
def drain_case(D, ctx, v, root): return drain_doc(D, ctx, lambda: doc_forest(D, v), root, 'document "%s"' % v)
def drain_doc(D, ctx, mk, root, what):
    """the predicate is an arbitrary function of the node"""
    def ex(inst):
        if inst.path.endswith('drain_pred'):
            return lambda I, st, i, a: [(st, I.simp(st, ('t', 'pred', models.deep(I, st, a[0]))))]
    BOOLOPS.add('pred')
    st = mk(); ps = storage(D, st); pre = D.snap(st)
    I = D.interp(extra=ex)
    outs = I.run(D.p.roots['d_drain'], [DOC, handle(root)], st)
    ctx.absorb(I); ctx.paths += len(outs)
    for o in outs:
        c = Case(); c.label = 'drain(%s) in %s' % (root, what); c.o = o; c.pre = pre; c.I = I; c.kw = dict(op='drain', root=root, ps=ps)
        c.post = D.snap(o.state) if o.kind == 'ret' else None
        yield c
def drain_tops(D, c):
    """topmost nodes below root for which the path knows the predicate true; None if a needed answer is missing"""
    tops = []; missing = []
    def walk(n):
        for k in c.pre[n]['kids']:
            t = c.I.simp(c.o.state, ('t', 'pred', handle(k)))
            if t[0] != 'int': missing.append(k); continue
            if t[1]: tops.append(k)
            else: walk(k)
    walk(c.kw['root'])
    return tops, missing

def C04(p, ctx):
    ctx.rule = ('Abstract interpretation of remove_node and drain (with the real tree, attribute and link code inlined) over documents whose nodes inside and outside the removed subtree link to each other in every direction, under SVG and non-SVG names, several times, '
                'with any number of plain attributes; the drain predicate is an arbitrary function of the node. Post-condition: exactly the chosen subtrees are gone from tree and storage and marked detached, no remaining attribute or linked list mentions a removed node or vice versa, everything else is unchanged, drain returns the number of removed subtrees.')
    D = Dom(p)
    jobs = [('drain', (m, v, r)) for m in TAGMODES for v in VARIANTS for r in ('SVG', 'N')] + [('remove', j) for j in removal_jobs()]
    def go(ctx, job):
        for i, c in enumerate(removal_case(D, ctx, job[1]) if job[0] == 'remove' else drain_case(D, ctx, job[1])): one_removal(D, ctx, i, c)
    par.each(ctx, jobs, go, 1)
    deep = ctx.tier == 'thorough'
    jobs = [('remove', t, k, l, pl) for t, k in shape_jobs(4 if deep else 3) for l in (0, 1) for pl in (('svg', 'root', 'alone', 'loose') if len(k) < 3 else ('svg', 'loose') if l else ('svg',))]
    jobs += [('remove', t, k, l, 'svg') for t, k in shape_jobs(4, 'ET', 'M') for l in (0, 1) if len(k) == 4 and not deep] + [('remove', t, k, l, 'svg') for t, k in wide_jobs() for l in (0, 1)]
    jobs += [('drain', t, k, l, 'svg') for t, k in shape_jobs(4 if deep else 3, 'EMT' if not deep else 'EMTC', 'E') for l in (0, 1)]
    if not deep:      # drain goes on after a child list that it has emptied, whatever follows
        for t in trees(4) + [t for t in trees(5) if len(t) > 1]:
            for lv in ('E', 'T', 'TE', 'ETC'):
                n = itertools.count(); jobs.append(('drain', t, ''.join('E' if x else lv[next(n) % len(lv)] for x in inner(t)), 0, 'svg'))
    ctx.notes['generated_subtrees'] = len(jobs)
    def widedrain(ctx, job):      # many children, each of which the predicate may choose
        t, k, l = job
        def mk():
            st = shape_doc(D, t, k, l)
            for n in ('N', 'X', 'Y', 'T1'): st.facts[('t', 'pred', handle(n))] = ('=', 0)
            return st
        for i, c in enumerate(drain_doc(D, ctx, mk, 'SVG', '%s%s' % (tree_text(t, k), ' with links' if l else ''))): one_removal(D, ctx, i, c)
    par.each(ctx, [(((),) * 6, 'EEEEEEE', 0), (((),) * 6, 'EETEETE', 0), ((((),) * 3, ((),) * 2), 'EEEEEEEE', 0), (((),) * 4, 'EEEEE', 1)], widedrain, 1)
    def go2(ctx, job):
        op, t, k, l, pl = job
        cs = shape_removals(D, ctx, t, k, l, pl) if op == 'remove' else drain_doc(D, ctx, lambda: shape_doc(D, t, k, l), 'SVG', '%s%s' % (tree_text(t, k), ' with links' if l else ''))
        for i, c in enumerate(cs): one_removal(D, ctx, i, c)
    par.each(ctx, jobs, go2, 4)
def one_removal(D, ctx, i, c):
    for _ in (0,):
        nm = '%s #%d' % (c.label, i)
        k = c.kw['op']
        if c.o.kind == 'stuck': ctx.undecided(nm, c.o.msg); continue
        if c.o.kind == 'panic': ctx.judge(nm, False, k + ':panic', '%s panics: %s at %s' % (c.label, c.o.msg, c.o.site), c.o.state.taint); continue
        if c.o.state.taint: ctx.undecided(nm, c.o.state.taint); continue
        if k == 'drain':
            tops, missing = drain_tops(D, c)
            if missing: ctx.violated(nm, 'drain:not-asked', '%s returns without asking the predicate about %s' % (c.label, missing)); continue
            if c.o.value != ('int', len(tops)): ctx.violated(nm, 'drain:count', '%s returns %s after removing %s' % (c.label, str(c.o.value)[:80], tops)); continue
        else: tops = c.kw['tops']
        why = after_removal(D, c.pre, tops, c.post, storage(D, c.o.state), c.kw['ps'])
        if c.o.state.ghost.get('segwrite'): why.append('an unrelated attribute is modified')
        if any(x[0] == 'attrs' for x in c.o.state.ghost.get('reordered', ())): why.append('the order of unrelated attributes is changed')
        ctx.judge(nm, not why, k + ':' + (why[0].split(' ')[0] if why else ''), '%s: %s' % (c.label, '; '.join(why[:4])))
        if not why and i % 7 == 0 and len(ctx.samples) < 6: ctx.samples.append(nm)

def document_links(D, ctx):
    """remove_node keeps the bookkeeping as well (C03)"""
    for i, c in enumerate(removal_cases(D, ctx)):
        nm = '%s #%d' % (c.label, i)
        if c.o.kind != 'ret' or c.o.state.taint: ctx.undecided(nm, c.o.msg or c.o.state.taint); continue
        bad = inv_diff(D, c.post)
        ctx.judge(nm, not bad, 'remove_node', '%s: %s' % (c.label, '; '.join('%s appears %d times in linked_nodes of %s but has %d links to it' % (x, g, t, w) for x, t, g, w in bad[:3])))
    def go(ctx, job):
        op, t, k = job
        for i, c in enumerate(shape_removals(D, ctx, t, k, 1, 'svg') if op == 'remove' else shape_copies(D, ctx, t, k, 1)): one(ctx, i, c)
    def one(ctx, i, c):
        nm = '%s #%d' % (c.label, i)
        if c.o.kind != 'ret' or c.o.state.taint: ctx.undecided(nm, c.o.msg or c.o.state.taint); return
        bad = inv_diff(D, c.post)
        ctx.judge(nm, not bad, c.kw['op'], '%s: %s' % (c.label, '; '.join('%s appears %d times in linked_nodes of %s but has %d links to it' % (x, g, t, w) for x, t, g, w in bad[:3])))
    par.each(ctx, [(op, t, k) for op in ('remove', 'copy') for t, k in list(shape_jobs(3)) + list(wide_jobs())], go, 4)
    for i, c in enumerate(copy_cases(D, ctx)):
        nm = '%s #%d' % (c.label, i)
        if c.o.kind != 'ret' or c.o.state.taint: ctx.undecided(nm, c.o.msg or c.o.state.taint); continue
        bad = inv_diff(D, c.post)
        ctx.judge(nm, not bad, c.kw['op'], '%s: %s' % (c.label, '; '.join('%s appears %d times in linked_nodes of %s but has %d links to it' % (x, g, t, w) for x, t, g, w in bad[:3])))

def copy_doc(D, kind):
    L = D.L; B = D.new(); at = L.attr
    B.node('ROOT', 'Root', kids=['SVG'])
    B.node('SVG', kids=['T', 'N', 'M', 'M2'], tag=('adt', L.qn['Id'], (('adt', L.eid['Svg'], ()),)))
    B.node('T'); B.node('M', attrs=[at(idn(D, 'Href'), B.link('Link', 'N')), at(idn(D, 'Fill'), B.link('Paint', 'N'))]); B.node('M2', attrs=[at(idn(D, 'Mask'), B.link('FuncLink', 'N'))])
    if kind in ('Text', 'Comment'):
        B.node('N', kind); return B.state()
    n1 = ('adt', L.qn['Name'], (('sym', 'attrname'),)); n0 = idn(D, 'Opacity')
    B.node('N', tag=('adt', L.qn['Id'], (('sym', 'tagid'),)) if kind == 'id' else ('adt', L.qn['Name'], (('str', 'tag'),)),
           attrs=[at(n0, anyval(B, 'plain4')), at(n1, anyval(B, 'plain5')), at(idn(D, 'Fill'), B.link('Paint', 'T', some(('sym', 'fallback')))), at(idn(D, 'Href'), B.link('Link', 'T')), at(idn(D, 'ClipPath'), B.link('FuncLink', 'T'))],
           kids=['C1', 'TX', 'C2'])
    B.node('C1', kids=['G1', 'G2'], attrs=[at(idn(D, 'X'), anyval(B, 'plain6'))]); B.node('TX', 'Text')
    B.node('C2', tag=('adt', L.qn['Name'], (('sym', 'othertag'),))); B.node('G1', attrs=[at(idn(D, 'Mask'), B.link('FuncLink', 'T'))]); B.node('G2', 'Comment', kids=[])
    for n, e in B.n.items():
        if e['kind'] == 'Element': e['id'] = ('sym', 'ident' + n)
    st = B.state()
    st.facts[('t', 'isempty', ('sym', 'identT'))] = ('=', 0)
    st.facts[('t', 'isempty', ('sym', 'othertag'))] = ('=', 0)
    return st
def copy_cases(D, ctx):
    for m in TAGMODES: yield from copy_case(D, ctx, (m,))
@tagged
def copy_case(D, ctx):
    for root in ('d_copy_node', 'd_copy_node_deep'):
        for kind in ('id', 'name', 'Text', 'Comment'):
            st = copy_doc(D, kind); ps = storage(D, st)
            for c in run_case(D, ctx, '%s of %s' % (root[2:], {'id': 'an SVG element', 'name': 'a non-SVG element'}.get(kind, kind)), root, [DOC, handle('N')], st, op=root[2:], ps=ps): yield c

def C17(p, ctx):
    ctx.rule = ('Abstract interpretation of copy_node and copy_node_deep over SVG and non-SVG elements with plain and link attributes, text and comment nodes, and nested subtrees with arbitrary names and payloads: the result is a new, unattached node (tree) of the same kind, tag, attributes and text '
                '(ids are not copied), the copied links are registered at their targets, and the source and every other node are unchanged.')
    D = Dom(p)
    for i, c in enumerate(copy_cases(D, ctx)): one_copy(D, ctx, i, c)
    deep = ctx.tier == 'thorough'
    jobs = [(t, k, l) for t, k in shape_jobs(4 if deep else 3) for l in (0, 1)] + [(t, k, 0) for t, k in shape_jobs(4, 'ET', 'EM') if len(k) == 4 and not deep] + [(t, k, l) for t, k in wide_jobs() for l in (0, 1)]
    ctx.notes['generated_subtrees'] = len(jobs)
    def go(ctx, job):
        for i, c in enumerate(shape_copies(D, ctx, *job)): one_copy(D, ctx, i, c)
    par.each(ctx, jobs, go, 4)
def one_copy(D, ctx, i, c):
    for _ in (0,):
        nm = '%s #%d' % (c.label, i); k = c.kw['op']
        if c.o.kind == 'stuck': ctx.undecided(nm, c.o.msg); continue
        if c.o.kind == 'panic': ctx.judge(nm, False, k + ':panic', '%s panics: %s at %s' % (c.label, c.o.msg, c.o.site), c.o.state.taint); continue
        if c.o.state.taint: ctx.undecided(nm, c.o.state.taint); continue
        why = []
        new = unhandle(c.o.value)
        post = c.post
        pairs = {}
        def match(a, b, top):
            """b must be a copy of a"""
            if b in c.pre or b not in post: why.append('the copy of %s is not a new node' % a); return
            pairs[b] = a
            x, y = c.pre[a], post[b]
            for f in ('type', 'tag', 'text'):
                if x[f] != y[f]: why.append('%s of the copy of %s is %s' % (f, a, str(y[f])[:80]))
            if list(x['attrs']) != list(y['attrs']): why.append('the copy of %s has the attributes %s instead of %s' % (a, [show(D, z) for z in y['attrs']], [show(D, z) for z in x['attrs']]))
            if y['linked']: why.append('the copy of %s is born with users' % a)
            if y['id'] not in (('str', ''),): why.append('the id of %s is copied' % a)
            if top and any(y[r] is not None for r in ('parent', 'prev', 'next')): why.append('the copy is already attached')
            if storage(D, c.o.state).get(y['key'][2][0] if y['key'][2] else None) != b: why.append('the copy of %s is not registered in the document' % a)
            kids = x['kids'] if k == 'copy_node_deep' else []
            if len(y['kids']) != len(kids): why.append('the copy of %s has %d children instead of %d' % (a, len(y['kids']), len(kids)))
            else:
                for p1, q1 in zip(kids, y['kids']):
                    if post[q1]['parent'] != b: why.append('broken parent link in the copy'); continue
                    match(p1, q1, False)
        match('N', new, True)
        for n, e in c.pre.items():
            q = post[n]
            for f in e:
                if f in ('linked', 'bor'): continue
                if f == 'attrs':
                    if list(e[f]) != list(q[f]): why.append('%s of %s changes' % (f, n))
                elif e[f] != q[f]: why.append('%s of %s changes' % (f, n))
            want = Counter(e['linked'])
            for b, a in pairs.items():
                for at in c.pre[a]['attrs']:
                    if D.link_target(D.lval(at)) == n: want[handle(b)] += 1
            if Counter(q['linked']) != want: why.append('linked_nodes of %s is %s' % (n, [show(D, z) for z in q['linked']]))
        ctx.judge(nm, not why, k + ':' + (why[0].split(' ')[0] if why else ''), '%s: %s' % (c.label, '; '.join(why[:3])))

def C19(p, ctx):
    ctx.rule = ('Abstract interpretation of Document::new, create_element, create_node, root, svg_element and Drop: every node handed out is new, empty, unattached, of the requested kind and registered in the document storage under its own key; dropping the document clears the link attributes, users and tree links of every registered node.')
    D = Dom(p); L = D.L
    def fresh_node(c, n, why, **want):
        q = c.post.get(n)
        if q is None or n in c.pre: why.append('the result is not a new node'); return
        for f, v in dict(dict(id=('str', ''), attrs=(), linked=(), parent=None, prev=None, next=None, first=None, last=None), **want).items():
            if q[f] != v: why.append('%s of the new node is %s' % (f, str(q[f])[:80]))
        st = storage(D, c.o.state)
        if st is None: return
        if q['key'] == NONE or st.get(q['key'][2][0]) != n: why.append('the new node is not registered in the document storage under its key')
    def finish(c, nm, why):
        ctx.judge(nm, not why, nm.split('#')[0].strip(), '%s: %s' % (c.label, '; '.join(why[:3])))
    def each(label, root, args, st, **kw):
        for i, c in enumerate(run_case(D, ctx, label, root, args, st, op=root, **kw)):
            nm = '%s #%d' % (label, i)
            if c.o.kind == 'stuck': ctx.undecided(nm, c.o.msg); continue
            if c.o.state.taint: ctx.undecided(nm, c.o.state.taint); continue
            yield c, nm
    # new
    for c, nm in each('Document::new', 'd_new', [], State()):
        if c.o.kind == 'panic': finish(c, nm, ['panics: %s' % c.o.msg]); continue
        v = c.o.value; why = []
        n = unhandle(v[2][D.doc_f['root']])
        c.o.state.heap['DOC'] = {'val': v}
        fresh_node(c, n, why, type=('adt', L.nt['Root'], ()), text=('str', ''))
        if set(storage(D, c.o.state).values()) != {n}: why.append('the storage of a new document holds %s' % storage(D, c.o.state))
        finish(c, nm, why)
    for kind, tag in (('id', ('adt', L.qrn['Id'], (('sym', 'tagid'),))), ('name', ('adt', L.qrn['Name'], (('sym', 'tagname'),)))):
        for v in ('leaf', 'full'):
            st = doc_forest(D, v)
            for c, nm in each('create_element(%s)' % kind, 'd_create_element', [DOC, tag], st):
                e = cond(c.I, c.o.state, models.isempty(c.I, c.o.state, ('sym', 'tagname')))
                if c.o.kind == 'panic':
                    finish(c, nm, [] if kind == 'name' and e is True else ['panics for a non-empty tag name: %s' % c.o.msg]); continue
                why = []
                if kind == 'name' and e is not False: why.append('an empty tag name is accepted')
                fresh_node(c, unhandle(c.o.value), why, type=('adt', L.nt['Element'], ()), tag=('adt', L.qn['Id' if kind == 'id' else 'Name'], tag[2]), text=('str', ''))
                d = unchanged(D, c)
                if d: why.append('changes %s' % d[:2])
                finish(c, nm, why)
    for k in L.nt:
        st = doc_forest(D, 'leaf')
        for c, nm in each('create_node(%s)' % k, 'd_create_node', [DOC, ('adt', L.nt[k], ()), ('sym', 'newtext')], st):
            bad = k in ('Element', 'Root')
            if c.o.kind == 'panic': finish(c, nm, [] if bad else ['panics: %s' % c.o.msg]); continue
            why = ['accepts the node type %s' % k] if bad else []
            if not bad:
                fresh_node(c, unhandle(c.o.value), why, type=('adt', L.nt[k], ()), text=('sym', 'newtext'))
                d = unchanged(D, c)
                if d: why.append('changes %s' % d[:2])
            finish(c, nm, why)
    st = doc_forest(D, 'full')
    for c, nm in each('root()', 'd_root', [DOC], st):
        finish(c, nm, [] if c.o.kind == 'ret' and c.o.value == handle('ROOT') else ['root() gives %s' % (c.o.msg or str(c.o.value)[:80])])
    # svg_element: the first svg child of the root
    def svg_el(ctx, kinds):
        """A: svg element, R: other element with an svg child, Q: element of the string name `svg`, C: comment, T: text"""
        B = D.new(); tid = lambda n: ('adt', L.qn['Id'], (('adt', L.eid[n], ()),))
        kids = ['%s%d' % (k, i) for i, k in enumerate(kinds)]; want = next((k for k in kids if k[0] == 'A'), None)
        B.node('ROOT', 'Root', kids=kids)
        for i, (k, n) in enumerate(zip(kinds, kids)):
            if k in 'CT': B.node(n, 'Comment' if k == 'C' else 'Text')
            elif k == 'A': B.node(n, tag=tid('Svg'))
            elif k == 'Q': B.node(n, tag=('adt', L.qn['Name'], (('str', 'svg'),)))
            else: B.node(n, tag=tid(('G', 'Rect', 'Symbol')[i % 3]), kids=['I%d' % i]); B.node('I%d' % i, tag=tid('Svg'))
        label = 'svg_element over [%s]' % ' '.join(kinds)
        for i, c in enumerate(run_case(D, ctx, label, 'd_svg_element', [DOC], B.state(), op='d_svg_element')):
            nm = '%s #%d' % (label, i)
            if c.o.kind == 'stuck': ctx.undecided(nm, c.o.msg); continue
            if c.o.state.taint: ctx.undecided(nm, c.o.state.taint); continue
            got = '?' if c.o.kind != 'ret' else None if c.o.value == NONE else unhandle(c.o.value[2][0])
            ctx.judge(nm, got == want, 'svg_element', '%s: gives %s, expected %s' % (nm, c.o.msg or got, want))
    par.each(ctx, [''.join(x) for n in range(4) for x in itertools.product('ARQCT', repeat=n)] + [x * n + y for n in (3, 5, 8) for x in ('R', 'Q', 'C', 'T', 'CT') for y in ('A', '', 'RA', 'AA')], svg_el, 8)
    # drop
    def drop(ctx, job):
        if len(job) == 2:
            v, (m, t) = job
            D.tags = m; st = doc_forest(D, v); D.tags = None
            label = 'drop of document "%s" (%s elements)' % (v, t)
        else:
            st = shape_doc(D, *job); label = 'drop of a document with %s%s, %s' % (tree_text(job[0], job[1]), ' with links' if job[2] else '', job[3])
        doc = st.heap['DOC']['val']
        for i, c in enumerate(run_case(D, ctx, label, 'd_drop', [doc], st, op='d_drop')):
            nm = '%s #%d' % (label, i)
            if c.o.kind == 'stuck': ctx.undecided(nm, c.o.msg); continue
            if c.o.state.taint: ctx.undecided(nm, c.o.state.taint); continue
            if c.o.kind == 'panic': ctx.violated(nm, 'drop:panic', '%s panics: %s at %s' % (label, c.o.msg, c.o.site)); continue
            why = []
            for n, q in c.post.items():
                if [a for a in q['attrs'] if a[0] != 'seg' and D.link_target(D.lval(a))]: why.append('%s keeps links to other nodes' % n)
                if q['linked']: why.append('%s keeps users' % n)
                for r in ('parent', 'prev', 'next', 'first', 'last'):
                    if q[r] is not None: why.append('%s keeps its %s link' % (n, r))
            ctx.judge(nm, not why, 'drop:' + (why[0].split(' ')[1] if why else ''), '%s: %s' % (label, '; '.join(why[:3])))
    par.each(ctx, list(itertools.product(VARIANTS, TAGMODES)) + [(t, k, 1, pl) for t, k in shape_jobs(3) for pl in (('svg', 'root', 'alone', 'loose') if len(k) < 3 else ('svg',))] + [(t, k, 1, 'alone') for t, k in wide_jobs()], drop, 4)
    # removed nodes leave the storage, creating afterwards still works
    for c in removal_cases(D, ctx):
        nm = 'storage after ' + c.label
        if c.o.kind != 'ret' or c.o.state.taint: ctx.undecided(nm, c.o.msg or c.o.state.taint); continue
        gone = set(subtree(c.pre, c.kw['tops'][0]))
        want = {k: n for k, n in c.kw['ps'].items() if n not in gone}
        ctx.judge(nm, storage(D, c.o.state) == want, 'storage', '%s: the storage holds %s, expected %s' % (c.label, sorted(map(str, storage(D, c.o.state).values())), sorted(want.values())))
