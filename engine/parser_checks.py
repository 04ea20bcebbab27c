"""Properties of Document::from_str over abstract XML/CSS input (mode P)."""
import re
from interp import *
import models, par
from xmlmode import *
from svgspec import *

def camel(n): return ''.join(w[:1].upper() + w[1:] for w in n.split('-'))
class Env:
    def __init__(self, p):
        self.p = p; self.P = Parser(p); self.D = self.P.D; self.L = self.P.L; self.S = Spec(p, self.L)
        self.aids = [v['n'] for v in p.types[self.L.aid_ty]['v']]
        self.eids = [v['n'] for v in p.types[self.L.eid_ty]['v']]
        import json, os, common
        self.tables = json.load(open(os.path.join(common.VERIF, 'spec', 'tables.json')))
        fb = (p.adt('PaintFallback', 'svgtypes') or [None])[0]
        self.ofb_ty = ([i for i, t in enumerate(p.types) if t['k'] == 'adt' and t['n'].endswith('::Option') and t.get('a') == [fb]] or [None])[0]
        self.pres = {camel(x) for x in self.tables['attribute_class']['is_presentation']}
    def stub(self, names=None, enames=None):
        """from_str of the id tables for placeholder names '?Variant' / '?E' (the tables themselves are C08's subject)"""
        L = self.L
        def f(inst):
            if inst.crate == 'svgdom' and inst.path.endswith('Id::from_str'):
                tab, nm = (L.aid, self.P.anames) if inst.path.endswith('AttributeId::from_str') else (L.eid, self.P.enames)
                rev = {n: k for k, n in nm.items()}
                def h(I, st, inst, a):
                    s = strv(I, st, a[0])
                    if s[0] == 'str' and (s[1].startswith('?') or s[1] in rev):
                        n = rev[s[1]] if s[1] in rev else s[1][1:]
                        if n == 'unknown': return [(st, NONE)]
                        if n in tab: return [(st, some(('adt', tab[n], ())))]
                        return [(st, some(('sym', n)))]
                    return None
                return h        # anything else goes through the real tables
            return None
        return f
    def tree(self, o):
        """(snapshot, root) of the resulting document"""
        sn = self.D.snap(o.state)
        v = o.state.heap['DOC']['val']
        return sn, unhandle(v[2][self.D.doc_f['root']])
    def attrs(self, e):
        """[(name, value)] with SVG names as variant names"""
        r = []
        for a in e['attrs']:
            if a[0] != 'adt': r.append(('?', a)); continue
            n = self.D.lname(a); v = self.D.lval(a)
            if n[1] == self.L.qn['Id'] and n[2][0][0] == 'adt': n = self.aids[n[2][0][1]]
            else: n = str(n)[:60]
            r.append((n, norm(v)))
        return r
    def allowed(self, facts, sym, names, ty):
        """values of a field-less enum symbol that the facts allow"""
        for k, f in facts.items():
            if k == ('t', 'discr', ('sym', sym), ty):
                if f[0] == '=': return [v['n'] for v in self.p.types[ty]['v'] if v['d'] == f[1]]
                return [v['n'] for v in self.p.types[ty]['v'] if v['d'] not in f[1]]
        return list(names)
    def show(self, v):
        if v is None: return 'absent'
        if isinstance(v, list): return '[%s]' % ', '.join('%s=%s' % (n, self.show(x)) for n, x in v)
        if v[0] == 'adt' and v[1] in self.L.avn: return '%s(%s)' % (self.L.avn[v[1]], short(v[2][0]) if v[2] else '')
        return short(v)

def short(v):
    s = str(v)
    s = re.sub(r"\('t', 'trim', (\('sym', '\w+'\))\)", r'trim \1', s)
    s = re.sub(r"\('(?:sym|str)', '([^']*)'\)", r'`\1`', s)
    s = s.replace("'t', ", '').replace("'", '').replace('std::str::FromStr', 'FromStr').replace('<svgtypes::stream::Stream<a> as std::convert::From<&a str>>::from', 'Stream')
    return s[:240]

def links_nonempty(o):
    """svgtypes never returns an empty IRI"""
    for k, f in o.state.facts.items():
        if k[0] == 't' and k[1] == 'isempty' and f == ('=', 1) and k[2][0] == 't' and k[2][1] == '.' and ('iri' in str(k[2][2])[:60] or 'Paint' in str(k[2])): return False
    return True

# ------------------------------------------------------------------ numeric regions (clamping)
class Undecidable(Exception): pass
def has_term(t, n): return t == n or (isinstance(t, tuple) and any(has_term(x, n) for x in t if isinstance(x, tuple)))
def consts(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ('flt', 'int') and isinstance(t[1], (int, float)): yield float(t[1])
        else:
            for x in t: yield from consts(x)
def samples(facts, n, r):
    """points of every region the path can distinguish: 0, 1, the constants the path compares n with, points between and around them"""
    ps = {0.0, 1.0} | set(consts(r))
    for k in facts:
        if k[0] == 't' and has_term(k, n): ps |= set(consts(k[2:]))
    ps = sorted(x for x in ps if x == x and abs(x) < 1e300)
    out = [ps[0] - 1, ps[0] / 2 if ps[0] else -1.5] + ps + [(a + b) / 2 for a, b in zip(ps, ps[1:])] + [ps[-1] + 1, ps[-1] * 2 + 300]
    return sorted(set(out))
def region_ok(facts, n, x):
    """does n = x satisfy the facts of the path?  None: not known"""
    r = True
    for k, f in facts.items():
        if k[0] != 't' or not has_term(k, n): continue
        if k[1] in CMP and len(k) == 4:
            va, vb = feval(k[2], n, x), feval(k[3], n, x)
            if va is None or vb is None or f[0] != '=': r = None
            elif bool(f[1]) != CMP[k[1]](va, vb): return False
        elif k[1] == 'isnan': 
            if f == ('=', 1): return False
        elif k[1] != 'discr': r = None
    return r
def feval(v, n, x):
    if v == n: return x
    if v[0] in ('flt', 'int'): return v[1]
    if v[0] == 't' and len(v) == 4 and v[1] in FOPS:
        a, b = feval(v[2], n, x), feval(v[3], n, x)
        if a is None or b is None: return None
        try: return FOPS[v[1]](a, b)
        except ZeroDivisionError: return None
    if v[0] == 't' and len(v) == 3 and v[1] == 'Neg':
        a = feval(v[2], n, x)
        return None if a is None else -a
    return None
FOPS = {'fmin': min, 'fmax': max, 'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mul': lambda a, b: a * b, 'Div': lambda a, b: a / b}

# ------------------------------------------------------------------ C11 / C12
def typing_case(E, ctx, aid, vals, mode, eid=None, clamp=None):
    """one document: sibling elements of any (one common) type, each with the attribute; every path's result against the table"""
    L = E.L
    X = XDoc(); s = X.elem(0, 'svg')
    for v in vals: X.elem(s, '?eid' if eid is None else '?' + eid, [('?' + aid, v)])
    I, outs = E.P.run(X, stub=E.stub(), opts=dict(other={v for v in vals if v[0] == 'sym'}))
    ctx.absorb(I); ctx.paths += len(outs)
    label = "%s of <%s %s=%s>" % ('result', eid or 'any element', aid, '/'.join(repr(v[1]) for v in vals))
    for o in outs:
        ob = '%s: %s' % (aid, mode)
        if o.kind == 'stuck' or o.state.taint:
            ctx.undecided(ob, o.msg or sorted(o.state.taint)); continue
        if o.kind != 'ret':
            ctx.violated(ob, 'panic:%s' % aid, 'Document::from_str panics on an attribute %s (%s at %s)' % (aid, o.msg, o.site)); continue
        if o.value[0] != 'adt' or o.value[1] != 0:
            ctx.violated(ob, 'error:%s' % aid, 'Document::from_str fails on a document whose attribute %s has value %s' % (aid, short(vals[0]))); continue
        if not links_nonempty(o): continue
        facts = o.state.facts
        sn, root = E.tree(o)
        svg = sn[root]['kids'][0]
        kids = sn[svg]['kids']
        al = E.allowed(facts, 'eid', E.eids, L.eid_ty) if eid is None else [eid]
        al = [e for e in al if e != 'Style']
        if not al: continue
        if len(kids) != len(vals):
            ctx.violated(ob, 'lost:%s' % aid, 'element with attribute %s is missing in the document (%s)' % (aid, label)); continue
        for v, k in zip(vals, kids):
            act = E.attrs(sn[k]); ident = sn[k]['id']
            bad = None
            classes = {}
            for e in al: classes.setdefault((e in TEXTXY, e in ANIMFILL), e)
            for e in classes.values():
                unknown = mode == 'constant' or facts.get(('t', 'isempty', models.trimmed('trim', v))) == ('=', 1) or facts.get(('t', 'isempty', v)) == ('=', 1)
                try: res = [(op, used, cmp_value(E, aid, x, act, ident, facts, clamp)) for op, used, x in alternatives(facts, lambda a: E.S.value(a, aid, e, v))]
                except Undecidable as x: ctx.undecided(ob, x); continue
                if unknown: good = any(r is None for _, _, r in res)
                else: good = all(r is None for _, _, r in res)
                if not good:
                    bad = [r for _, _, r in res if r is not None][0] + ' (element %s)' % e
            if bad is None: ctx.ok(ob, '%s=%s -> %s' % (aid, short(v), E.show(act)) if mode != 'keywords' else None)
            else: ctx.violated(ob, 'type:%s:%s' % (aid, v[1].strip() if v[0] == 'str' else 'value'), 'attribute %s with value %s: %s' % (aid, repr(v[1].strip()) if v[0] == 'str' else 'v', bad))
    return I

def cmp_value(E, aid, exp, act, ident, facts, clamp=None):
    """None if the attributes of the element are as expected, else a description"""
    if exp[0] == 'id':
        if ident == exp[1] and not act: return None
        return 'expected the element id to be the value, found id %s and attributes %s' % (short(ident), E.show(act))
    if ident != ('str', ''): return 'the element id changed to %s' % short(ident)
    return cmp_attrs(E, [(aid, exp)], act, facts)
def cmp_attrs(E, exps, act, facts):
    """expected effects [(name, effect)] against the attributes found"""
    exps = [(n, x) for n, x in exps if x[0] not in ('none', 'clear')]
    names = [n for n, _ in act]
    want = [n for n, x in exps if x[0] != 'path' or n in names]
    for n, x in exps:
        if x[0] == 'path' and n not in names and path_facts(facts, x[1]) == 'nonempty': return 'path data is lost'
    if sorted(names) != sorted(want):
        return 'expected %s, found %s' % ('attribute ' + ', '.join(want) if want else 'no attribute', E.show(act) if act else 'none')
    for n, x in exps:
        if n not in names: continue
        r = cmp_one(E, n, x, dict(act)[n], facts)
        if r is not None: return r
    return None
def cmp_one(E, aid, exp, act, facts):
    L = E.L
    k = exp[0]
    if k == 'link':
        for _, _, x in alternatives(facts, lambda a: E.S.fallback(a, aid, exp[1], exp[2])):
            if act != norm(x): return 'expected %s (no such element), found %s' % (E.show(x), E.show(act))
        return None
    if k == 'path':
        if act[0] != 'adt' or L.avn[act[1]] != 'Path': return 'expected a Path, found %s' % E.show(act)
        d = act[2][0]
        while d[0] == 'adt' and len(d[2]) == 1: d = d[2][0]
        if d == ('vec', (('seg', ('elem', exp[1])),)): return None
        return 'expected the path segments before the first error, found %s' % short(d)
    if k == 'num':
        n = exp[1][2][0]
        if act[0] != 'adt' or L.avn[act[1]] != 'Number': return 'expected a Number, found %s' % E.show(act)
        r = act[2][0]
        for x in samples(facts, n, r):
            w = region_ok(facts, n, x)
            if w is False: continue
            y = feval(r, n, x)
            if w is None or y is None: raise Undecidable('stored number %s' % short(r)[:120])
            if y != min(1, max(0, x)): return 'for the number %s the stored number is %s, not the number bounded to 0..1 (%s)' % (x, y, short(r)[:100])
        return None
    return None if act == norm(exp[1]) else 'expected %s, found %s' % (E.show(norm(exp[1])), E.show(act))
def path_facts(facts, src):
    for k, f in facts.items():
        if k[0] == 't' and k[1] == 'len' and k[2] == ('vec', (('seg', ('elem', src)),)): return 'empty' if f == ('=', 0) else 'nonempty'
    return None

def C11(p, ctx):
    ctx.rule = ('Abstract interpretation of Document::from_str (type-checked MIR, everything of svgdom inlined, svgtypes parsers as unknown functions of the value) on <svg><E A="v"/></svg> '
                'for every SVG attribute A, every element type E (symbolic) and every value v: each keyword of the typing table, and an arbitrary other string. '
                'On every abstract path the attributes of the resulting element must be what the typing table prescribes for the results of the parsers on that path.')
    E = Env(p)
    def one(c, aid):
        kws = [('str', '\n %s\t ' % k) for k in KW]
        for e in (None,) if ctx.tier == 'thorough' else ('Rect', 'Text', 'Set') if G.get(aid, ('',))[0] in ('XY', 'FillX') else ('Rect',):
            typing_case(E, c, aid, kws, 'keywords', eid=e)
        I = typing_case(E, c, aid, [('sym', 'v')], 'any other value')
        for _, k in sorted(I.stats.get('consts', ())):
            if k not in KW and k: typing_case(E, c, aid, [('str', k)], 'constant')
    par.each(ctx, E.aids, one)

# ------------------------------------------------------------------ C12
def layer_doc(layers, eid='Rect', extra_sheet=None):
    """<svg><style>rules</style><E attrs style="decls"/></svg>; layers: ('attr', aid, v) | ('rule', k, aid, v) | ('style', aid, v)"""
    X = XDoc(); s = X.elem(0, 'svg')
    rules = {}
    for l in layers:
        if l[0] == 'rule': rules.setdefault(l[1], []).append(('?' + l[2], l[3]))
    if rules:
        st = X.elem(s, 'style', [('type', 'text/css')]); X.text(st, ('sym', 'sheet'))
        X.css(('sym', 'sheet'), [('yes%d' % k, ds) for k, ds in sorted(rules.items())])
    at = [('?' + l[1], l[2]) for l in layers if l[0] == 'attr']
    sd = [('?' + l[1], l[2]) for l in layers if l[0] == 'style']
    if sd:
        at.append(('style', ('sym', 'styleattr'))); X.decls(('sym', 'styleattr'), sd)
    e = X.elem(s, '?' + eid, at)
    return X
MARKERS = ('MarkerStart', 'MarkerMid', 'MarkerEnd')
def effects(E, ask, layers, eid):
    """expected effect per attribute name after applying the layers in order"""
    cur = {}
    for l in layers:
        css = l[0] != 'attr'
        aid, v = l[-2], l[-1]
        if css and aid not in E.pres and aid != 'Transform': continue
        for a in MARKERS if css and aid == 'Marker' else (aid,):
            x = E.S.value(ask, a, eid, v, css)
            if x[0] == 'none': continue
            if x[0] == 'id': cur['id'] = x
            else: cur[a] = x
    return cur
def run_layers(E, ctx, ob, layers, eid=None, key=None, matches=None):
    X = layer_doc(layers, eid or 'eid')
    vals = {l[-1] for l in layers if l[-1][0] == 'sym'}
    st = State()
    for x in (('sym', 'sheet'), ('t', 'trim', ('sym', 'sheet'))): st.facts[('t', 'isempty', x)] = ('=', 0)
    if len(vals) > 1:       # several unknown paints: fallbacks are C14's subject
        for v in vals:
            st.facts[('t', 'discr', ('t', '.', ('t', '.', E.S.call('Paint', ('t', 'trim', v)), 0, 0), 4, 1), E.ofb_ty)] = ('=', 0)
    I, outs = E.P.run(X, st, stub=E.stub(), opts=dict(other=vals), matches=matches or (lambda sel, n: sel.startswith('yes')))
    ctx.absorb(I); ctx.paths += len(outs)
    for o in outs:
        if o.kind == 'stuck' or o.state.taint:
            ctx.undecided(ob, o.msg or sorted(o.state.taint)); continue
        if o.kind != 'ret':
            ctx.violated(ob, 'panic:' + (key or ob), 'Document::from_str panics (%s at %s) on %s' % (o.msg, o.site, ob)); continue
        if o.value[0] != 'adt' or o.value[1] != 0:
            ctx.violated(ob, 'error:' + (key or ob), 'Document::from_str rejects the document: %s' % ob); continue
        if not links_nonempty(o): continue
        facts = o.state.facts
        sn, root = E.tree(o)
        kids = sn[sn[root]['kids'][0]]['kids'] if sn[root]['kids'] else []
        al = [e for e in E.allowed(facts, 'eid', E.eids, E.L.eid_ty) if e != 'Style'] if eid is None else [eid]
        if not al: continue
        if len(kids) != 1:
            ctx.violated(ob, 'lost:' + (key or ob), 'the element is missing (or the style element is still there) in the document: %s' % ob); continue
        act = E.attrs(sn[kids[0]]); ident = sn[kids[0]]['id']
        lay = [l for l in layers if l[0] != 'rule' or matches is None or matches('yes%d' % l[1], None)]
        def fn(a, e):
            ef = effects(E, a, lay, e); i = ef.pop('id', None)
            if ident != (i[1] if i else ('str', '')): return 'the element id is %s' % short(ident)
            return cmp_attrs(E, list(ef.items()), act, facts)
        empty = any(facts.get(('t', 'isempty', x)) == ('=', 1) for v in vals for x in (v, ('t', 'trim', v)))
        classes = {}
        for e in al: classes.setdefault((e in TEXTXY, e in ANIMFILL), e)
        res = []
        for e in classes.values():
            try: rs = [r for _, _, r in alternatives(facts, lambda a: fn(a, e))]
            except Undecidable as x: ctx.undecided(ob, x); continue
            if not (any if empty else all)(r is None for r in rs): res = rs; break
        if (any if empty else all)(r is None for r in res): ctx.ok(ob, '%s -> %s' % (ob, E.show(act)[:160]))
        else: ctx.violated(ob, key or ob, '%s: %s' % (ob, [r for r in res if r is not None][0]))

CLAMPED = [a for a in G if G[a][0] == 'Clamp']
def sv(i): return ('sym', 'v%d' % i)
def C12(p, ctx):
    ctx.rule = ('Abstract interpretation of Document::from_str with an arbitrary value for opacity, fill-opacity, flood-opacity, stroke-opacity, stop-opacity, k1..k4, given as an XML attribute, '
                'in a style sheet rule and in a style attribute. The stored number is a function of the parsed number n; on every path it is evaluated over the regions n<0, n=0, 0<n<1, n=1, n>1 that the path facts allow and must be n bounded to 0..1.')
    E = Env(p)
    def one(c, aid):
        typing_case(E, c, aid, [('sym', 'v')], 'any value')
        for lay in ([('attr', aid, sv(0))], [('rule', 0, aid, sv(0))], [('style', aid, sv(0))]):
            run_layers(E, c, '%s in %s' % (aid, dict(attr='an attribute', rule='a style rule', style='a style attribute')[lay[0][0]]), lay, key='clamp:%s:%s' % (aid, lay[0][0]))
    par.each(ctx, CLAMPED, one, 1)

# ------------------------------------------------------------------ C13
LAYN = dict(attr='attribute', rule='style rule', style='style attribute')
def C13(p, ctx):
    ctx.rule = ('Abstract interpretation of Document::from_str on an element that gets the same property from several sources (XML attribute, matching style sheet rules, style attribute; arbitrary values), '
                'for every presentation attribute and transform. On every path the resulting attributes must be the fold of the effective values in the order attribute < rules in sheet order < style attribute. '
                'For all 270 attribute names: only presentation attributes and transform are taken from CSS, marker sets marker-start/mid/end.')
    E = Env(p)
    names = [a for a in E.aids if a in E.pres or a == 'Transform']
    jobs = []
    for a in E.aids: jobs.append(('filter', a))
    for a in names if ctx.tier != 'panic' else (): jobs.append(('pairs', a))
    for a in ('FontFamily', 'StrokeWidth', 'Color', 'Transform', 'Display', 'StrokeDasharray') if ctx.tier == 'quick' else [n for n in names if G.get(n, ('String',))[0] in ('String', 'Length', 'Color', 'Angle', 'LengthList', 'Transform', 'Number', 'LenOrStr')]: jobs.append(('four', a))
    def one(c, job):
        k, aid = job
        if k == 'filter':
            run_layers(E, c, '%s in a style rule' % aid, [('rule', 0, aid, sv(0))], key='rule:%s' % aid)
            run_layers(E, c, '%s in a style attribute' % aid, [('style', aid, sv(0))], key='style:%s' % aid)
            run_layers(E, c, '%s in a rule that does not match' % aid, [('rule', 0, aid, sv(0)), ('rule', 1, aid, sv(1))], key='nomatch:%s' % aid, matches=lambda s, n: s == 'yes1')
        elif k == 'pairs':
            for A in (('attr',), ('rule', 0), ('rule', 1), ('style',)):
                for B in (('attr',), ('rule', 0), ('rule', 1), ('style',)):
                    if A > B or (A == B == ('attr',)) or (A[0] == 'rule' and B == ('rule', 0) and A != B) : continue
                    if A == ('rule', 1) and B == ('rule', 1): continue
                    lay = sorted([A, B], key=lambda x: (('attr', 'rule', 'style').index(x[0]), x))
                    layers = [l + (aid, sv(i)) for i, l in enumerate(lay)]
                    run_layers(E, c, '%s: %s then %s' % (aid, LAYN[lay[0][0]], LAYN[lay[1][0]] + (' (same rule)' if lay[0] == lay[1] else '')), layers, eid=None if ctx.tier == 'thorough' else 'Rect', key='cascade:%s:%s-%s' % (aid, lay[0][0], lay[1][0]))
                    if lay[0] != lay[1]:
                        for kw in ('inherit', 'none'):
                            for j in (0, 1):
                                l2 = [l[:-1] + (('str', kw),) if i == j else l for i, l in enumerate(layers)]
                                run_layers(E, c, '%s: %s then %s, one is %s' % (aid, LAYN[lay[0][0]], LAYN[lay[1][0]], kw), l2, eid='Rect', key='cascade:%s:%s-%s:%s' % (aid, lay[0][0], lay[1][0], kw))
            if aid in LINKATTRS:      # a reference between two plain values
                for i, (x, y, z) in enumerate(((('attr',), ('rule', 0), ('style',)), (('rule', 0), ('rule', 1), ('style',)), (('attr',), ('rule', 0), ('rule', 1)), (('attr',), ('style',), ('style',)))):
                    run_layers(E, c, '%s: inherit, a value and none in %s, %s, %s' % (aid, LAYN[x[0]], LAYN[y[0]], LAYN[z[0]]), [x + (aid, ('str', 'inherit')), y + (aid, sv(1)), z + (aid, ('str', 'none'))], eid='Rect', key='cascade3:%s:%d' % (aid, i))
                    run_layers(E, c, '%s: a value, none and a value in %s, %s, %s' % (aid, LAYN[x[0]], LAYN[y[0]], LAYN[z[0]]), [x + (aid, sv(0)), y + (aid, ('str', 'none')), z + (aid, sv(2))], eid='Rect', key='cascade3:%s:%d' % (aid, i))
        else:
            lay = [('attr', aid, sv(0)), ('rule', 0, aid, sv(1)), ('rule', 1, aid, sv(2)), ('style', aid, sv(3))]
            run_layers(E, c, '%s from all four sources' % aid, lay, eid='Rect', key='cascade4:%s' % aid)
    par.each(ctx, jobs, one)

# ------------------------------------------------------------------ C22: selectors and style sheets
STRATTR = [a for a in G if G[a][0] == 'String']
def selector_doc():
    X = XDoc()
    X.text(0, 'c', 'Comment')
    s = X.elem(0, 'svg', [('class', 'a b'), ('lang', 'en-US')])
    st = X.elem(s, 'style', [('type', 'text/css')]); X.text(st, ('sym', 'sheet'))
    X.text(s, 'ws')
    g = X.elem(s, 'g', [('class', 'b'), ('id', 'g1')])
    X.text(g, 'c2', 'Comment'); X.text(g, 'txt ' * 30)
    r = X.elem(g, 'rect', [('class', 'a'), (XLINK, 'title', 'x')])
    X.text(g, 'txt2')
    pa = X.elem(g, 'path', [('lang', 'en'), ('title', 'x')])
    X.text(g, 'c3', 'Comment')
    r2 = X.elem(g, 'rect', [('class', 'ab')])
    g2 = X.elem(s, 'g', [('class', 'bb a'), ('lang', 'english')])
    fo = X.elem(g2, 'foo', [('class', 'a')], ns='other')
    g3 = X.elem(g2, 'g')
    X.elem(g3, 'path', [('class', 'a b')]); X.elem(g3, 'circle')
    X.elem(g2, 'circle', [('title', '')])
    sw = X.elem(s, 'switch')
    X.elem(sw, 'path', [('title', ' x '), ('class', ' a'), ('lang', ' en')]); X.elem(sw, 'circle', [('lang', 'en '), ('title', 'X'), ('class', 'A  b ')])
    X.elem(sw, 'foo', ns=None); X.elem(sw, 'rect'); X.elem(sw, 'rect', [('class', 'a')], ns=None); X.elem(sw, 'path')
    X.elem(sw, 'rect', [('lang', 'en-'), ('class', 'a\tb'), ('title', 'x ')])
    return X
def selectors(full):
    simple = [(t, []) for t in ('svg', 'g', 'rect', 'path', 'circle', 'foo', 'Rect', 'nothing', None)]
    subs = [[('pseudo', i)] for i in range(6)]
    subs += [[('attr', n, op, v)] for n in ('class', 'title', 'lang', 'id') for op, v in ((0, None), (1, 'a'), (1, 'x'), (2, 'a'), (2, 'b'), (3, 'en'))]
    subs += [[('attr', 'class', 2, 'a'), ('attr', 'class', 2, 'b')], [('attr', 'class', 2, 'a'), ('pseudo', 0)]]
    out = [[(0, t, ss)] for t, ss in simple]
    for ss in subs:
        out.append([(0, None, ss)])
        if full or ss[0][0] == 'pseudo': out += [[(0, t, ss)] for t in ('g', 'rect', 'path')]
    parts = [('g', []), ('svg', []), ('rect', []), ('path', []), (None, [('attr', 'class', 2, 'a')]), (None, [('pseudo', 0)]), (None, []), ('foo', []), ('circle', [])]
    for c in (1, 2, 3):
        for a in parts:
            for b in parts: out.append([(0,) + a, (c,) + b])
    for c in (1, 2, 3):
        for d in (1, 2, 3):
            for a in parts[:2] + parts[4:6]:
                for b in parts[:1] + parts[3:5] + parts[7:8]:
                    for e in parts[2:5] + parts[8:]: out.append([(0,) + a, (c,) + b, (d,) + e])
    return out
def show_sel(sel):
    r = ''
    for c, t, ss in sel:
        r += ('', ' ', ' > ', ' + ')[c] + (t or '*')
        for s in ss:
            if s[0] == 'attr': r += '[%s%s]' % (s[1], ('', '=%s', '~=%s', '|=%s')[s[2]] % (s[3] if s[2] else ())) if s[2] else '[%s]' % s[1]
            else: r += ':' + ('first-child', 'link', 'visited', 'hover', 'active', 'focus', 'lang')[s[1]]
    return r
def dom_pairs(E, X, sn, root):
    """pairs (XML element, DOM node) for the elements expected in the document, walking both trees"""
    out = []
    def go(k, n):
        xs = [c for c in X.n[k]['kids'] if X.n[c]['kind'] == 'Element' and X.n[c]['ns'] == SVG and X.n[c]['name'] != 'style']
        ds = [c for c in sn[n]['kids'] if sn[c]['type'][1] == E.L.nt['Element']]
        if len(xs) != len(ds): raise Stop('element structure')
        for x, d in zip(xs, ds): out.append((x, d)); go(x, d)
    go(0, root)
    return out
def C22(p, ctx):
    ctx.rule = ("simplecss' selector matching is interpreted together with svgdom's element callbacks (parent, previous sibling element, local name, attribute, pseudo-class) over an abstract document with comments, text, foreign and nested elements, "
                'for every simple selector and every combination of two and three simple selectors from the generator; each rule sets its own property, and exactly the elements chosen by the CSS 2.1 reference matcher may carry it. '
                'Style sheets: only style elements of type text/css or without a type are used, all of them, in document order.')
    E = Env(p)
    X0 = selector_doc()
    sels = selectors(ctx.tier == 'thorough')
    n = len(STRATTR)
    batches = [sels[i:i + n] for i in range(0, len(sels), n)]
    def one(c, batch):
        X = selector_doc()
        X.css(('sym', 'sheet'), [(s, [('?' + STRATTR[i], ('str', 'v%d' % i))]) for i, s in enumerate(batch)])
        st = State()
        for x in (('sym', 'sheet'), ('t', 'trim', ('sym', 'sheet'))): st.facts[('t', 'isempty', x)] = ('=', 0)
        I, outs = E.P.run(X, st, stub=E.stub())
        c.absorb(I); c.paths += len(outs)
        for o in outs:
            if o.kind != 'ret' or o.state.taint or o.value[1] != 0:
                for s in batch:
                    if o.kind == 'panic' and not o.state.taint: c.violated('selector ' + show_sel(s), 'panic', 'Document::from_str panics: %s at %s' % (o.msg, o.site))
                    else: c.undecided('selector ' + show_sel(s), o.msg or sorted(o.state.taint))
                continue
            sn, root = E.tree(o)
            prs = dom_pairs(E, X, sn, root)
            for i, s in enumerate(batch):
                ob = 'selector ' + show_sel(s)
                for x, d in prs:
                    has = STRATTR[i] in [a for a, _ in E.attrs(sn[d])]
                    want = select(X, s, x)
                    if has != want:
                        c.violated(ob, 'selector:' + show_sel(s).replace(' ', ''), "rule '%s' %s to element %d <%s> of the model document, which it %s" % (show_sel(s), 'is applied' if has else 'is not applied', x, X.n[x]['name'], 'selects' if want else 'does not select'))
                    else: c.ok(ob, '%s selects %d of %d elements' % (show_sel(s), sum(select(X, s, y) for y, _ in prs), len(prs)))
    par.each(ctx, batches, one, 1)
    # style sheets
    def sheet(c, job):
        k = job
        types = [None, 'text/css', 'text/plain', 'unknown', '']
        X = XDoc(); s = X.elem(0, 'svg')
        want = []
        for j, t in enumerate(k):
            par_ = s if j != 1 else X.elem(s, 'defs')
            at = [('type', ('sym', 'othertype') if t == 'unknown' else t.split('+')[0])] if t is not None and t[0] != '-' else []
            if t is not None and 'more' in t: at = [('?Media', ('sym', 'media')), ('?Title', 'v'), ('id', 's%d' % j), ('class', 'k')] + at + [('foo', 'w'), (XML, '?Space', 'preserve'), ('?FontFamily', 'v'), ('?Lang', 'v')]
            e = X.elem(par_, 'style', at)
            if t == '-empty': continue
            X.text(e, ('sym', 'sheet%d' % j))
            X.css(('sym', 'sheet%d' % j), [('yes', [('?FontFamily', ('str', 'f%d' % j)), ('?' + STRATTR[2 + j], ('str', 'w%d' % j))])])
            if t in (None, 'text/css', '-more', 'text/css+more'): want.append(j)
        e = X.elem(s, 'rect')
        st = State()
        for j in range(len(k)):
            for x in (('sym', 'sheet%d' % j), ('t', 'trim', ('sym', 'sheet%d' % j))): st.facts[('t', 'isempty', x)] = ('=', 0)
        I, outs = E.P.run(X, st, stub=E.stub(), matches=lambda sel, n: n == e, opts=dict(other={('sym', 'othertype'), ('sym', 'media')}))
        c.absorb(I); c.paths += len(outs)
        ob = 'style elements of type %s' % ', '.join(str(t) for t in k)
        for o in outs:
            if o.kind != 'ret' or o.state.taint or o.value[1] != 0: c.undecided(ob, o.msg or sorted(o.state.taint)); continue
            sn, root = E.tree(o)
            rect = sn[sn[root]['kids'][0]]['kids'][-1]
            act = dict(E.attrs(sn[rect]))
            exp = {}
            for j in want:
                exp['FontFamily'] = E.L.val('String', ('str', 'f%d' % j)); exp[STRATTR[2 + j]] = E.L.val('String', ('str', 'w%d' % j))
            c.judge(ob, act == exp, 'sheets:' + '-'.join(str(t) for t in k), '%s: the element gets %s' % (ob, E.show(list(act.items()))))
    ts = [None, 'text/css', 'text/plain', 'unknown']
    tm = ['-empty', '-more', 'text/css+more', 'text/plain+more']
    par.each(ctx, [(a,) for a in ts + tm] + [(a, b) for a in ts + tm for b in ts + tm] + [(a, b, d) for a in ts for b in ts for d in ts], sheet, 2)

# ------------------------------------------------------------------ C14: links
PAINTA = ('Fill', 'Stroke')
def link_value(E, aid, v, iri, fb=None):
    """facts that make value v a reference to iri"""
    S = E.S; V = ('t', 'trim', v); f = {}
    def dis(T, n):
        f[('discr', T)] = n
    return f
from dom_checks import cond
class LinkOracle:
    """svgtypes results for the values used in the link documents: value symbol -> (iri, fallback)"""
    def __init__(self, E, table): self.E = E; self.t = table
    def __call__(self, inst):
        t = self.t
        def look(v):
            v = models.strbase(v)
            return t.get(v)
        if inst.crate != 'svgtypes': return None
        q = inst.path
        if 'paint::Paint' in q and q.endswith('from_str'):
            def h(I, st, inst, a):
                x = look(strv(I, st, a[0]))
                if x is None: return None
                return [(st, ok(('adt', 4, (x[0] if isinstance(x[0], tuple) else S(x[0]), x[1]))))]
            return h
        if q.endswith('::parse_iri') or q.endswith('::parse_func_iri'):
            def h(I, st, inst, a):
                s = stream_src(rd(I, st, a[0]))
                x = look(s) if s is not None else None
                if x is None: return None
                wr(I, st, a[0], ('t', 'after', 'link', rd(I, st, a[0])))
                return [(st, ok(x[0] if isinstance(x[0], tuple) else S(x[0])))]
            return h
        return None
FB = [('none given', NONE), ('none', some(('adt', 0, ()))), ('currentColor', some(('adt', 1, ()))), ('color', some(('adt', 2, (('sym', 'fbcolor'),))))]
def C14(p, ctx):
    ctx.rule = ('Abstract interpretation of Document::from_str on documents with references (href, fill, stroke, clip-path, filter, marker, marker-start/mid/end, mask; from XML attributes, style rules and style attributes) '
                'to elements before, after, inside and around the referencing element, missing, duplicated, in removed style elements, to itself and in cycles. The attribute must be a link to the first element in document order with that id, '
                'the target must list the user, and an unresolved reference must take the documented fallback.')
    E = Env(p); L = E.L
    kinds = dict((a, 'Link' if a == 'Href' else 'Paint' if a in PAINTA else 'FuncLink') for a in LINKATTRS)
    def run(c, ob, X, table, judge, matches=None, facts=()):
        st = State()
        for k in facts: st.facts[k] = ('=', 0)
        for x in (('sym', 'sheet'), ('t', 'trim', ('sym', 'sheet'))): st.facts[('t', 'isempty', x)] = ('=', 0)
        base = E.stub(); lo = LinkOracle(E, table)
        I, outs = E.P.run(X, st, stub=lambda i: base(i) or lo(i), matches=matches, opts=dict(other=set(table)))
        c.absorb(I); c.paths += len(outs); c.I = I
        for o in outs:
            if o.kind == 'stuck' or o.state.taint: c.undecided(ob, o.msg or sorted(o.state.taint)); continue
            if o.kind != 'ret': c.violated(ob, 'panic:' + ob, 'Document::from_str panics (%s at %s): %s' % (o.msg, o.site, ob)); continue
            if o.value[1] != 0: c.violated(ob, 'error:' + ob, 'Document::from_str rejects the document: ' + ob); continue
            sn, root = E.tree(o)
            try: r = judge(sn, root, o)
            except Undecidable as e: c.undecided(ob, e); continue
            if r is None: c.ok(ob, ob)
            else: c.violated(ob, ob.replace(' ', '-'), '%s: %s' % (ob, r))
    def walk(sn, n):
        r = [n]
        for k in sn[n]['kids']: r += walk(sn, k)
        return r
    def users_ok(sn, root):
        """linked lists of all nodes of the document = link attributes pointing at them, both ways"""
        nodes = walk(sn, root)
        want = {n: [] for n in nodes}
        for n in nodes:
            for a, v in E.attrs(sn[n]):
                t = E.D.link_target(v)
                if t is not None:
                    if t not in want: return 'attribute %s of %s links to a node that is not in the document' % (a, n)
                    if n not in want[t] or True: want[t].append(n)
        for n in nodes:
            have = [unhandle(x) for x in sn[n]['linked']]
            if any(x not in want for x in have): return 'a node lists a user that is not in the document'
            if sorted(map(str, set(have))) != sorted(map(str, set(want[n]))): return 'users of %s are not the nodes that link to it' % n
        return None
    def find(sn, root, ident):
        for n in walk(sn, root):
            if sn[n]['id'] == ('str', ident): return n
        return None
    def src_of(sn, root): 
        r = [n for n in walk(sn, root) if sn[n]['id'] == ('str', 'src')]
        return r[0] if r else None
    def expect_link(aid, target, fb=NONE):
        v = [handle(target)] + ([fb] if kinds[aid] == 'Paint' else [])
        return norm(L.val(kinds[aid], *v))
    SRC = [('id', 'src')]
    def place(X, e, via, aid, v):
        if via == 'attribute': X.n[e]['attrs'].append((None, '?' + aid, v))
        elif via == 'style': X.n[e]['attrs'].append((None, 'style', ('sym', 'sa'))); X.decls(('sym', 'sa'), [('?' + aid, v)])
        else:
            st = X.elem(1, 'style', [('type', 'text/css')]); X.text(st, ('sym', 'sheet'))
            X.css(('sym', 'sheet'), [('sel', [('?' + aid, v)])])
            return lambda s, n: n == e
        return None
    v = ('sym', 'lv')
    def one(c, job):
        aid, via, where, fbi = job
        fbn, fb = FB[fbi]
        X = XDoc(); s = X.elem(0, 'svg', [('id', 'root')]); assert s == 1
        noid = where.endswith(', no id'); full = where; where = where[:-7] if noid else where
        SRC = [] if noid else [('id', 'src')]
        tgt = 't'
        def t(par, ident='t'): return X.elem(par, 'linearGradient', [('id', ident)])
        if where == 'before': t(s, 'u'); t(s); e = X.elem(s, 'rect', SRC); t(s, 'w')
        elif where == 'after': e = X.elem(s, 'rect', SRC); t(s, 'u'); t(s)
        elif where == 'child': e = X.elem(s, 'g', SRC); t(e, 'u'); t(e)
        elif where == 'ancestor': g = X.elem(s, 'g', [('id', 't')]); e = X.elem(g, 'rect', SRC)
        elif where == 'svg': tgt = 'root'; e = X.elem(s, 'rect', SRC)
        elif where == 'duplicate': d = X.elem(s, 'defs', []); g1 = X.elem(d, 'g', []); first = t(g1); t(d); e = X.elem(s, 'rect', SRC); t(s)
        elif where == 'duplicate after': e = X.elem(s, 'rect', SRC); g = X.elem(s, 'g'); t(g); t(s)
        elif where == 'missing': t(s, 'u'); e = X.elem(s, 'rect', SRC); t(s, 'T'); t(s, 't2'); t(s, ' t'); t(s, 't '); t(s, '#t'); t(s, 'tt'); noid or t(s, '')
        elif where.startswith('odd'): tgt = where[4:]; t(s, 't'); e = X.elem(s, 'rect', SRC); t(s, 'T'); t(s, 'url(#t)')
        elif where == 'in style': st_ = X.elem(s, 'style', []); t(st_); e = X.elem(s, 'rect', SRC)
        elif where == 'unknown element': X.elem(s, '?unknown', [('id', 't')]); e = X.elem(s, 'rect', SRC)
        elif where == 'foreign': X.elem(s, 'rect', [('id', 't')], ns='other'); e = X.elem(s, 'rect', SRC)
        elif where == 'self': tgt = 'src'; e = X.elem(s, 'rect', SRC)
        elif where == 'any': t(s, 'u'); e = X.elem(s, 'rect', SRC); g = X.elem(s, 'g', [('id', ('sym', 'anyid'))]); t(g); tgt = ('sym', 'iri')
        elif where == 'any element': t(s, 'u'); X.elem(s, '?te', [('id', 't')]); e = X.elem(s, '?se', SRC)
        elif where == 'any element after': g = X.elem(s, 'g'); e = X.elem(g, '?se', SRC); t(s, 'u'); X.elem(s, '?te', [('id', 't')]); t(s)
        m = place(X, e, via, aid, v)
        ob = '%s from %s to %s%s' % (aid, via, full, '' if fbi == 0 else ', fallback ' + fbn)
        names = MARKERS if aid == 'Marker' and via != 'attribute' else (aid,)
        def judge(sn, root, o):
            src = src_of(sn, root)
            if noid:
                src = [n for n in walk(sn, root) if n != root and sn[n]['id'] == ('str', '')]
                src = src[0] if len(src) == 1 else None
            where_ = where
            if where.startswith('any element'):
                se, te = (E.allowed(o.state.facts, x, E.eids, L.eid_ty) for x in ('se', 'te'))
                if se == ['Style']: return None if src is None else 'a style element is left'
                if te == ['Style']: where_ = 'in style' if where == 'any element' else 'after'
                if aid == 'Fill' and all(x in ANIMFILL for x in se): return None        # not a paint there (C11)
            if src is None: return 'referencing element is lost'
            act = dict(E.attrs(sn[src]))
            if where == 'any':
                T = None
                for n in walk(sn, root):
                    if sn[n]['id'] == ('str', ''): continue
                    q = cond(c.I, o.state, models.streq(c.I, o.state, sn[n]['id'], tgt))
                    if q is None: raise Undecidable('the reference is not compared with the id of every element before its target')
                    if q: T = n; break
                if T == src: exp = {}
                elif T is None: exp = {n: norm(E.S.fallback(None, n, tgt, fb if n in PAINTA else NONE)) for n in names}
                else: exp = {n: expect_link(n, T, fb) for n in names}
            elif where == 'self': exp = {}
            elif where_[:3] == 'odd' or where_ in ('missing', 'in style', 'unknown element', 'foreign'): exp = {n: norm(E.S.fallback(None, n, ('str', tgt), fb if n in PAINTA else NONE)) for n in names}
            else:
                T = find(sn, root, tgt)
                exp = {n: expect_link(n, T, fb) for n in names}
            if act != exp:
                return 'expected %s, found %s' % (', '.join('%s=%s' % (n, showl(E, sn, x)) for n, x in exp.items()) or 'no attribute', ', '.join('%s=%s' % (n, showl(E, sn, x)) for n, x in act.items()) or 'no attribute')
            return users_ok(sn, root)
        eq = lambda a, b: ('t', 'streq') + tuple(sorted((a, b), key=repr))
        ii, an = ('sym', 'iri'), ('sym', 'anyid')
        run(c, ob, X, {v: (tgt, fb)}, judge, m, [('t', 'isempty', ii), ('t', 'isempty', an), eq(an, ('str', 'src'))] if where == 'any' else ())
    jobs = []
    for aid in LINKATTRS:
        for via in ('attribute', 'style', 'rule'):
            if via != 'attribute' and aid not in E.pres: continue
            for where in ('before', 'after', 'child', 'ancestor', 'svg', 'duplicate', 'duplicate after', 'missing', 'in style', 'unknown element', 'foreign', 'self', 'any', 'any element', 'any element after') + (('odd #t', 'odd  t', 'odd t ', 'odd #', 'odd t)') if via == 'attribute' else ()) + ('before, no id', 'after, no id', 'missing, no id') + (('odd #t, no id',) if via == 'attribute' else ()):
                for fbi in range(4) if aid in PAINTA else (0,): jobs.append((aid, via, where, fbi))
    par.each(ctx, jobs, one)
    # cycles and sharing
    v2, v3 = ('sym', 'lv2'), ('sym', 'lv3')
    def two(c, job):
        a, b, shape = job
        X = XDoc(); s = X.elem(0, 'svg', [('id', 'root')])
        if shape == 'cycle':
            X.elem(s, 'rect', [('id', 'p'), ('?' + a, v)]); X.elem(s, 'rect', [('id', 'q'), ('?' + b, v2)])
            table = {v: ('q', NONE), v2: ('p', NONE)}
        elif shape == 'shared':
            X.elem(s, 'rect', [('id', 'p'), ('?' + a, v)]); X.elem(s, 'rect', [('id', 'q'), ('?' + b, v2)]); X.elem(s, 'rect', [('id', 'z')])
            table = {v: ('z', NONE), v2: ('z', NONE)}
        elif shape == 'both':
            X.elem(s, 'rect', [('id', 'p'), ('?' + a, v), ('?' + b, v2)]); X.elem(s, 'rect', [('id', 'z')]); X.elem(s, 'rect', [('id', 'q')])
            table = {v: ('z', NONE), v2: ('q', NONE)}
        elif shape == 'chain':
            X.elem(s, 'rect', [('id', 'p'), ('?' + a, v)]); X.elem(s, 'rect', [('id', 'q'), ('?' + b, v2)]); X.elem(s, 'rect', [('id', 'z'), ('?' + a, v3)])
            table = {v: ('q', NONE), v2: ('z', NONE), v3: ('nothing', NONE)}
        elif shape in ('first missing', 'second missing', 'both missing', 'plain first', 'plain second', 'plain first, missing', 'plain second, missing'):
            pa_, pb_ = ('?' + a, v), ('?' + b, v2)
            if shape.startswith('plain first'): pa_ = ('?' + a, 'none')
            if shape.startswith('plain second'): pb_ = ('?' + b, 'none')
            X.elem(s, 'rect', [('id', 'p'), pa_, pb_]); X.elem(s, 'rect', [('id', 'z')]); X.elem(s, 'rect', [('id', 'q')])
            table = {}
            if pa_[1] == v: table[v] = ('nothing' if shape in ('first missing', 'both missing') or shape.endswith(', missing') else 'z', NONE)
            if pb_[1] == v2: table[v2] = ('nowhere' if shape in ('second missing', 'both missing') or shape.endswith(', missing') else 'q', NONE)
        elif shape == 'in style':
            st_ = X.elem(s, 'style'); g = X.elem(st_, 'g', [('?' + a, v)]); X.elem(g, 'rect', [('?' + b, v2)]); X.elem(s, 'rect', [('id', 'z')])
            table = {v: ('z', NONE), v2: ('nothing', NONE)}
        ob = '%s and %s, %s' % (a, b, shape)
        def judge(sn, root, o):
            P = find(sn, root, 'p'); Q = find(sn, root, 'q'); Z = find(sn, root, 'z')
            r = users_ok(sn, root)
            if r: return r
            if shape == 'in style': return None
            pa, qa = dict(E.attrs(sn[P])), dict(E.attrs(sn[Q]))
            if shape == 'cycle':
                if pa != {a: expect_link(a, Q)}: return 'the first link of a cycle is missing or wrong'
                if qa: return 'the link that closes a cycle is stored: %s' % E.show(list(qa.items()))
            elif shape == 'shared':
                if pa != {a: expect_link(a, Z)} or qa != {b: expect_link(b, Z)}: return 'links to a shared target are wrong'
            elif shape == 'both':
                if pa != {a: expect_link(a, Z), b: expect_link(b, Q)}: return 'two links of one element are wrong: %s' % E.show(list(pa.items()))
            elif shape.endswith('missing') or shape.startswith('plain'):
                def want(n, k, sym):
                    if sym not in table: return norm(L.val('None'))
                    t = table[sym][0]
                    return norm(E.S.fallback(None, n, ('str', t), NONE)) if t[0] == 'n' else expect_link(n, find(sn, root, t))
                exp = {a: want(a, 0, v), b: want(b, 1, v2)}
                if pa != exp: return 'expected %s, found %s' % (', '.join('%s=%s' % (n, showl(E, sn, x)) for n, x in exp.items()), ', '.join('%s=%s' % (n, showl(E, sn, x)) for n, x in pa.items()))
            elif shape == 'chain':
                za = dict(E.attrs(sn[Z]))
                if pa != {a: expect_link(a, Q)} or qa != {b: expect_link(b, Z)} or za != {a: norm(E.S.fallback(None, a, ('str', 'nothing'), NONE))}: return 'chained links are wrong'
            return None
        run(c, ob, X, table, judge)
    LA = ('Fill', 'Stroke', 'Href', 'Mask', 'MarkerMid')
    jobs = [(a, b, sh) for sh in ('first missing', 'second missing', 'both missing', 'plain first', 'plain second', 'plain first, missing', 'plain second, missing') for a in LINKATTRS for b in LINKATTRS
            if a != b and a != 'Marker' and b != 'Marker' and (ctx.tier == 'thorough' or a in LA and b in LA) and not ('plain first' in sh and a in ('Href', 'Fill', 'Stroke') or 'plain second' in sh and b in ('Href', 'Fill', 'Stroke'))]
    jobs += [(a, b, sh) for sh in ('cycle', 'shared', 'both', 'chain', 'in style') for a in LINKATTRS for b in LINKATTRS if (sh != 'both' or a != b) and (ctx.tier == 'thorough' or a == b or a in ('Href', 'Fill', 'Mask') or b in ('Href', 'Fill', 'Mask'))]
    par.each(ctx, jobs, two)
def showl(E, sn, v):
    t = E.D.link_target(v)
    if t is not None: return '%s to %s' % (E.L.avn[v[1]], short(sn[t]['id']) if t in sn else '?')
    return E.show(v)
