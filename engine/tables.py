"""C08 name tables, C09 classification, C10 defaults, C26 conversions, C27 name helpers and filters.

All functions involved are total functions of small finite inputs (an enum variant) or of one string;
they are decided by conditional constant propagation over their MIR, one run per variant, and one run with
an unknown string for the lookup functions."""
import os, json
from interp import *
import models
from dom import *
from common import VERIF
SPEC = os.path.join(VERIF, 'spec', 'tables.json')

def spec(): return json.load(open(SPEC))

def const_run(p, ctx, root, args, st=None):
    """the single constant result of a call, or (None, why)"""
    I = Interp(p, models.lookup(), dict(max_steps=20000))
    try:
        outs = I.run(p.roots[root], args, st)
    except Stop as e:
        return None, str(e), None
    if ctx is not None: ctx.absorb(I); ctx.paths += len(outs)
    if any(o.kind == 'stuck' or o.state.taint for o in outs): return None, 'analysis stuck: %s' % ([o.msg for o in outs if o.kind == 'stuck'][:1] or outs[0].state.taint), None
    vals = {(o.kind, o.value if o.kind == 'ret' else o.msg) for o in outs}
    if len(vals) != 1: return None, 'result is not a constant', None
    k, v = vals.pop()
    return (k, v), None, outs

def const_runs(p, ctx, root, args, st=None):
    """every result of a call: (kind, value), or (None, why)"""
    I = Interp(p, models.lookup(), dict(max_steps=20000))
    try: outs = I.run(p.roots[root], args, st)
    except Stop as e: return [(None, str(e))]
    ctx.absorb(I); ctx.paths += len(outs)
    return [(None, o.msg or sorted(o.state.taint)) if o.kind == 'stuck' or o.state.taint else ((o.kind, o.value if o.kind == 'ret' else ('str', o.msg)), None) for o in outs]

class Names:
    """id <-> name of both tables, by constant propagation of as_str"""
    def __init__(self, p, ctx=None):
        self.p = p
        self.L = Layout(p)
        self.attr = {}; self.elem = {}; self.bad = []
        for kind, ty, root, out in (('attribute', self.L.aid_ty, 'at_as_str', self.attr), ('element', self.L.eid_ty, 'e_as_str', self.elem)):
            for i, v in enumerate(p.types[ty]['v']):
                r, why, _ = const_run(p, ctx, root, [ref(('adt', i, ()))])
                if r is None: self.bad.append((kind, v['n'], why, False)); continue
                if r[0] != 'ret' or r[1][0] != 'str': self.bad.append((kind, v['n'], 'as_str(%s) %s' % (v['n'], r[0]), True)); continue
                out[i] = r[1][1]

def lit(L, p, v, depth=0):
    """JSON form of a constant AttributeValue"""
    if v[0] in ('int', 'flt', 'str'): return v[1]
    if v[0] == 'adt': return [v[1]] + [lit(L, p, x, depth + 1) for x in v[2]]
    return '?'

def C08(p, ctx):
    ctx.rule = ('Constant propagation of as_str/from_str over every AttributeId and ElementId variant, plus one run of from_str on an unknown string: as_str is total and injective, '
                'from_str(as_str(id)) == Some(id), from_str(s) == Some(id) only on paths where s is compared equal to the name stored with id, every SVG 1.1 name of the frozen list is known.')
    N = Names(p, ctx); L = N.L; S = spec()
    for kind, var, why, sure in N.bad:
        (ctx.violated('%s:%s' % (kind, var), '%s:%s' % (kind, var), why) if sure else ctx.undecided('%s:%s' % (kind, var), why))
    for kind, tbl, from_str, want in (('attribute', N.attr, 'at_from_str', S['attributes']), ('element', N.elem, 'e_from_str', S['elements'])):
        ty = L.aid_ty if kind == 'attribute' else L.eid_ty
        vn = [v['n'] for v in p.types[ty]['v']]
        seen = {}
        for i, s in tbl.items():
            ctx.judge('%s %s unique' % (kind, s), s not in seen, '%s:dup:%s' % (kind, s), '%s name %r is given by as_str for both %s and %s' % (kind, s, vn[i], vn[seen.get(s, 0)]))
            seen[s] = i
            r, why, _ = const_run(p, ctx, from_str, [('str', s)])
            nm = '%s %s round-trip' % (kind, s)
            if r is None: ctx.undecided(nm, why)
            else: ctx.judge(nm, r == ('ret', some(('adt', i, ()))), '%s:from_str:%s' % (kind, s), 'from_str(%r) gives %s, expected Some(%s)' % (s, show_opt(vn, r), vn[i]))
        if len(tbl) == len(vn):
            for s in want:
                ctx.judge('%s %s known' % (kind, s), s in seen, '%s:missing:%s' % (kind, s), 'no %s id has the SVG name %r' % (kind, s))
        near = [f(x) for x in tbl.values() for f in (str.upper, str.lower, str.capitalize, str.strip, lambda x: x + ' ', lambda x: x.replace('-', '_'), lambda x: 'svg:' + x)]
        for s in ['', 'unknown-name', 'SVG', 'Rect', 'viewbox', 'xlink:href', 'xml:space', ' fill', 'fill '] + sorted(set(near)):
            if s in seen: continue
            r, why, _ = const_run(p, ctx, from_str, [('str', s)])
            nm = '%s lookup of %r' % (kind, s)
            if r is None: ctx.undecided(nm, why)
            else: ctx.judge(nm, r == ('ret', NONE), '%s:spurious:%s' % (kind, s), 'from_str(%r) gives %s, expected None' % (s, show_opt(vn, r)))
        # unknown string
        I = Interp(p, models.lookup(), dict(max_steps=20000))
        nm = '%s lookup of an arbitrary string' % kind
        try: outs = I.run(p.roots[from_str], [('sym', 's')])
        except Stop as e: ctx.undecided(nm, e); continue
        ctx.absorb(I); ctx.paths += len(outs)
        for o in outs:
            if o.kind == 'stuck' or o.state.taint: ctx.undecided(nm, o.msg or o.state.taint); continue
            if o.kind == 'panic':
                ctx.undecided(nm, 'panic on an arbitrary string not excluded: ' + str(o.msg)); continue
            if o.value == NONE: ctx.ok(nm); continue
            e = o.value[2][0] if o.value[0] == 'adt' and o.value[1] == 1 else None
            good = False
            if e is not None:
                for t, f in o.state.facts.items():
                    if t[0] == 't' and t[1] == 'streq' and f == ('=', 1) and ('sym', 's') in t[2:4]:
                        q = t[2] if t[3] == ('sym', 's') else t[3]
                        if q[0] == 't' and q[1] == '.' and e[0] == 't' and e[1] == '.' and q[2] == e[2] and (q[3], q[4]) == (0, 0) and (e[3], e[4]) == (0, 1): good = True
                        if q[0] == 'str' and e[0] == 'adt' and tbl.get(e[1]) == q[1]: good = True
            if good: ctx.ok(nm)
            elif any(t[0] == 't' and t[1] == 'streq' and f == ('=', 1) for t, f in o.state.facts.items()): ctx.undecided(nm, 'lookup result not tied to the table entry')
            else: ctx.violated(nm, kind + ':lookup', 'from_str can return an id for a string that was not compared equal to any name of the table')

def show_opt(vn, r):
    if r[0] != 'ret': return str(r)[:80]
    v = r[1]
    if v == NONE: return 'None'
    if v[0] == 'adt' and v[1] == 1 and v[2] and v[2][0][0] == 'adt': return 'Some(%s)' % vn[v[2][0][1]]
    return str(v)[:80]

def attr_preds(p): return sorted(r for r in p.roots if r.startswith('ct_'))
def elem_preds(p): return sorted(r for r in p.roots if r.startswith('ce_'))

def pred_value(p, ctx, nm, root, args, st, want, key, text):
    r, why, _ = const_run(p, ctx, root, args, st)
    if r is None: ctx.undecided(nm, why)
    elif r[0] == 'ret' and r[1] in (TRUE, FALSE): ctx.judge(nm, (r[1] == TRUE) == want, key, text % ('true' if r[1] == TRUE else 'false'))
    else: ctx.violated(nm, key, text % r[0])

def C09(p, ctx):
    ctx.rule = ('Constant propagation of every AttributeType predicate over every AttributeId and of every ElementType predicate over a node with every tag name, compared with the frozen SVG 1.1 / doc-comment '
                'category tables; the Attribute versions must agree with the id versions and be false for non-SVG names, the Node versions false for non-SVG tags, text, comment and root nodes.')
    N = Names(p, ctx); L = N.L; S = spec()
    for pr in attr_preds(p):
        b = pr[3:]; yes = set(S['attribute_class'][b])
        for i, s in N.attr.items():
            if s not in S['attributes']: continue
            w = s in yes
            pred_value(p, ctx, '%s(%s)' % (b, s), pr, [ref(('adt', i, ()))], None, w, '%s:%s' % (b, s), 'AttributeId::%s() of %s is %%s, expected %s' % (b, s, str(w).lower()))
            pred_value(p, ctx, 'Attribute::%s(%s)' % (b, s), 'ca_' + b, [ref(L.attr(L.id_name(i), ('sym', 'v')))], None, w, 'Attribute:%s:%s' % (b, s), 'Attribute::%s() of %s is %%s, expected %s' % (b, s, str(w).lower()))
        pred_value(p, ctx, 'Attribute::%s(non-SVG)' % b, 'ca_' + b, [ref(L.attr(L.str_name(('sym', 'n')), ('sym', 'v')))], None, False, 'Attribute:%s:non-svg' % b, 'Attribute::%s() of a non-SVG attribute is %%s' % b)
    for pr in elem_preds(p):
        b = pr[3:]; yes = set(S['element_class'][b])
        for i, s in N.elem.items():
            if s not in S['elements']: continue
            st = State(); st.heap['N'] = L.cell(tag=('adt', L.qn['Id'], (('adt', i, ()),)))
            w = s in yes
            pred_value(p, ctx, '%s(%s)' % (b, s), pr, [ref(handle('N'))], st, w, '%s:%s' % (b, s), 'Node::%s() of a %s element is %%s, expected %s' % (b, s, str(w).lower()))
        for t in ('Element', 'Text', 'Comment', 'Root'):
            st = State(); st.heap['N'] = L.cell(type=('adt', L.nt[t], ()), tag=('adt', L.qn['Name'], (('sym', 'n'),)))
            pred_value(p, ctx, '%s(non-SVG %s)' % (b, t), pr, [ref(handle('N'))], st, False, '%s:non-svg:%s' % (b, t), 'Node::%s() of a non-SVG %s node is %%s' % (b, t))
    # general element/type queries
    for t in ('Element', 'Text', 'Comment', 'Root'):
        for root, w in (('n_is_root', t == 'Root'), ('n_is_element', t == 'Element'), ('n_is_text', t == 'Text'), ('n_is_comment', t == 'Comment')):
            st = State(); st.heap['N'] = L.cell(type=('adt', L.nt[t], ()))
            pred_value(p, ctx, '%s(%s)' % (root, t), root, [ref(handle('N'))], st, w, '%s:%s' % (root, t), '%s of a %s node is %%s' % (root, t))
        for tag, isid in ((('adt', L.qn['Id'], (('adt', 3, ()),)), True), (('adt', L.qn['Name'], (('sym', 'n'),)), False)):
            st = State(); st.heap['N'] = L.cell(type=('adt', L.nt[t], ()), tag=tag)
            w = t == 'Element' and isid
            pred_value(p, ctx, 'is_svg_element(%s,%s)' % (t, isid), 'n_is_svg_element', [ref(handle('N'))], st, w, 'is_svg_element:%s:%s' % (t, isid), 'is_svg_element of a %s node with %s tag is %%s' % (t, 'an SVG' if isid else 'a non-SVG'))

def C10(p, ctx):
    ctx.rule = 'Constant propagation of AttributeValue::default_value and Attribute::new_default over every AttributeId, compared with the frozen initial-value table; new_default must carry the same id and value.'
    N = Names(p, ctx); L = N.L; S = spec()
    for i, s in N.attr.items():
        if s not in S['attributes']: continue
        r, why, _ = const_run(p, ctx, 'v_default_value', [('adt', i, ())])
        nm = 'default(%s)' % s
        if r is None: ctx.undecided(nm, why); continue
        w = S['defaults'].get(s)
        got = None if r == ('ret', NONE) else (dlit(L, r[1][2][0]) if r[0] == 'ret' else r[0])
        ctx.judge(nm, got == w, 'default:' + s, 'the default value of %s is %s, expected %s' % (s, got, w))
        r2, why, _ = const_run(p, ctx, 'v_new_default', [('adt', i, ())])
        nm = 'new_default(%s)' % s
        if r2 is None: ctx.undecided(nm, why); continue
        exp = ('ret', NONE) if r == ('ret', NONE) else ('ret', some(L.attr(L.id_name(i), r[1][2][0])))
        ctx.judge(nm, r2 == exp, 'new_default:' + s, 'Attribute::new_default(%s) is not the default value under that id' % s)

def dlit(L, v):
    if v[0] != 'adt': return '?'
    def f(x):
        if x[0] == 'flt': return x[1]
        if x[0] in ('int', 'str'): return x[1]
        if x[0] == 'adt': return [x[1]] + [f(y) for y in x[2]]
        return '?'
    return [L.avn[v[1]]] + [f(x) for x in v[2]]

IS = {'none': 'None', 'inherit': 'Inherit', 'current_color': 'CurrentColor', 'aspect_ratio': 'AspectRatio', 'color': 'Color', 'length': 'Length', 'length_list': 'LengthList', 'angle': 'Angle',
      'link': 'Link', 'func_link': 'FuncLink', 'paint': 'Paint', 'number': 'Number', 'number_list': 'NumberList', 'path': 'Path', 'points': 'Points', 'string': 'String', 'transform': 'Transform', 'viewbox': 'ViewBox'}
FROM = {'vf_aspect_ratio': 'AspectRatio', 'vf_color': 'Color', 'vf_length': 'Length', 'vf_length_list': 'LengthList', 'vf_angle': 'Angle', 'vf_f64': 'Number', 'vf_number_list': 'NumberList', 'vf_path': 'Path',
        'vf_points': 'Points', 'vf_string': 'String', 'vf_transform': 'Transform', 'vf_viewbox': 'ViewBox', 'vf_str': 'String'}

WORDS = ('', 'a', 'fill', 'Fill', 'href', 'xlink:href', 'id', 'class', 'style', 'svg', 'rect', 'g', 'none', 'inherit', 'currentColor', 'x', ' fill', '0', 'font-size', 'xml:space', 'unicode')
def C26(p, ctx):
    ctx.rule = ('Constant propagation over every AttributeValue variant (payload unknown) of the is_* predicates, and of every From conversion with an unknown payload: the predicate is true for exactly its variant, '
                'the conversion yields exactly the documented variant with the payload unchanged; link/paint attributes built from (name, node) get the variant their name requires.')
    L = Layout(p)
    allow = set(IS.values())
    for var, i in L.av.items():
        nf = len(p.types[L.av_ty]['v'][i]['f'])
        v = ('adt', i, tuple(('sym', 'f%d' % k) for k in range(nf)))
        for b, target in IS.items():
            if 'v_is_' + b in p.roots:
                pred_value(p, ctx, 'is_%s(%s)' % (b, var), 'v_is_' + b, [ref(v)], None, var == target, 'is_%s:%s' % (b, var), 'AttributeValue::is_%s() of %s is %%s' % (b, var))
            if 'ax_is_' + b in p.roots:
                pred_value(p, ctx, 'Attribute::is_%s(%s)' % (b, var), 'ax_is_' + b, [ref(L.attr(L.str_name(('sym', 'n')), v))], None, var == target, 'Attribute:is_%s:%s' % (b, var), 'Attribute::is_%s() of %s is %%s' % (b, var))
        w = var in ('Link', 'FuncLink', 'Paint')
        pred_value(p, ctx, 'is_link_container(%s)' % var, 'v_is_link_container', [ref(v)], None, w, 'is_link_container:' + var, 'is_link_container() of %s is %%s' % var)
        pred_value(p, ctx, 'Attribute::is_link_container(%s)' % var, 'ax_is_link_container', [ref(L.attr(L.str_name(('sym', 'n')), v))], None, w, 'Attribute:is_link_container:' + var, 'Attribute::is_link_container() of %s is %%s' % var)
    for w in WORDS + ('None', 'Inherit', 'currentcolor', '1', '1px', '#fff', 'url(#a)', '#a', 'true', 'M 0 0'):
        v = L.val('String', ('str', w))
        for b, target in IS.items():
            for r2, a in (('v_is_', v), ('ax_is_', L.attr(L.id_name(L.aid['Fill']), v))):
                if r2 + b in p.roots: pred_value(p, ctx, '%s%s of the string "%s"' % (r2, b, w), r2 + b, [ref(a)], None, target == 'String', '%s%s:string' % (r2, b), '%s%s of the string "%s" is %%s' % (r2, b, w))
        for root in ('vf_str', 'vf_string'):
            if root in p.roots:
                for r, why in const_runs(p, ctx, root, [('str', w)]):
                    if r is None: ctx.undecided(root, why); continue
                    ctx.judge('%s("%s")' % (root, w), r == ('ret', v), 'from:' + root, '%s converts "%s" into %s' % (root, w, show_av(L, r[1])))
    for x in (0.0, 1.0, -1.0, 0.5, 1e10, -0.0):
        v = L.val('Number', ('flt', x))
        for b, target in IS.items():
            if 'v_is_' + b in p.roots: pred_value(p, ctx, 'is_%s of the number %s' % (b, x), 'v_is_' + b, [ref(v)], None, target == 'Number', 'is_%s:number' % b, 'is_%s of the number %s is %%s' % (b, x))
    for root, var in FROM.items():
        for r, why in const_runs(p, ctx, root, [('sym', 'x')]):
            if r is None: ctx.undecided(root, why); continue
            ctx.judge(root, r == ('ret', L.val(var, ('sym', 'x'))), 'from:' + root, '%s converts into %s instead of %s with the same payload' % (root, show_av(L, r[1]), var))
    ints = [0, 1, -1, 7, 10, 100, -100] + [s * (1 << b) + d for b in (7, 8, 15, 16, 23, 24, 25, 30, 31) for s in (1, -1) for d in (-1, 0, 1) if -2**31 <= s * (1 << b) + d < 2**31]
    flts = [0.0, 1.0, -1.0, 2.5, -2.5, 0.1, 1e-7, 1e-12, 1/3, 100.0, 16777217.0, 1e10, -1e10, 3e38, 1e300, float('inf')]
    for x in ints:
        r, why, _ = const_run(p, ctx, 'vf_i32', [('int', x)])
        if r is None: ctx.undecided('vf_i32', why)
        else: ctx.judge('vf_i32(%d)' % x, r == ('ret', L.val('Number', ('flt', float(x)))), 'from:i32', 'From<i32> of %d gives %s' % (x, show_av(L, r[1])))
    for x in flts:
        r, why, _ = const_run(p, ctx, 'vf_f64', [('flt', x)])
        if r is None: ctx.undecided('vf_f64', why)
        else: ctx.judge('vf_f64(%s)' % x, r == ('ret', L.val('Number', ('flt', x))), 'from:vf_f64', 'From<f64> of %s gives %s' % (x, show_av(L, r[1])))
    for root, x, f in [('vf_i32_unit', ('int', x), ('flt', float(x))) for x in ints] + [('vf_f64_unit', ('flt', x), ('flt', x)) for x in flts]:
        r, why, _ = const_run(p, ctx, root, [('adt', 0, (x, ('sym', 'unit')))])
        if r is None: ctx.undecided(root, why); continue
        good = r[0] == 'ret' and r[1][0] == 'adt' and r[1][1] == L.av['Length'] and sorted(r[1][2][0][2], key=repr) == sorted((f, ('sym', 'unit')), key=repr) if r[0] == 'ret' and r[1][0] == 'adt' and r[1][2] and r[1][2][0][0] == 'adt' else False
        ctx.judge('%s(%s)' % (root, x[1]), good, 'from:' + root, '%s of %s gives %s' % (root, x[1], show_av(L, r[1])))
    fb = p.adt('PaintFallback', 'svgtypes')
    fbt = fb[0] if fb else None
    if fbt is not None:
        for i, v in enumerate(p.types[fbt]['v']):
            a = ('adt', i, tuple(('sym', 'c') for _ in v['f']))
            r, why, _ = const_run(p, ctx, 'vf_fallback', [a])
            if r is None: ctx.undecided('vf_fallback', why); continue
            ctx.judge('vf_fallback(%s)' % v['n'], r == ('ret', L.val(v['n'], *a[2])), 'from:fallback:' + v['n'], 'From<PaintFallback::%s> gives %s' % (v['n'], show_av(L, r[1])))
    # (name, node) conversions
    names = [('Id', i, n) for n, i in L.aid.items()] + [('Name', ('sym', 'n'), 'non-SVG name')] + [('Name', ('str', w), 'non-SVG name "%s"' % w) for w in WORDS]
    for k, i, n in names:
        nr = L.id_nameref(i) if k == 'Id' else L.str_nameref(i)
        nq = L.id_name(i) if k == 'Id' else L.str_name(i)
        want = L.val('Link', handle('T')) if n == 'Href' and k == 'Id' else L.val('Paint', handle('T'), NONE) if n in ('Fill', 'Stroke') and k == 'Id' else L.val('FuncLink', handle('T'))
        for root, args, w in (('n_from_link', [nr, handle('T')], L.attr(nq, want)), ('n_from_paint', [nr, handle('T'), ('sym', 'fb')], L.attr(nq, L.val('Paint', handle('T'), ('sym', 'fb')))),
                              ('n_from_value', [nr, ('sym', 'v')], L.attr(nq, ('sym', 'v')))):
            st = State(); st.heap['T'] = L.cell()
            r, why, _ = const_run(p, ctx, root, args, st)
            nm = '%s(%s)' % (root, n)
            if r is None: ctx.undecided(nm, why); continue
            ctx.judge(nm, r == ('ret', w), '%s:%s' % (root, n if n in ('Href', 'Fill', 'Stroke') else 'other'), 'Attribute::from for %s builds %s' % (n, show_av(L, r[1][2][L.attr_f['value']]) if r[0] == 'ret' and r[1][0] == 'adt' else r[0]))

    # equality of values: same kind and same payload
    def payloads(var):
        if var in ('None', 'Inherit', 'CurrentColor'): return [()]
        if var in ('Link', 'FuncLink'): return [(handle('T'),), (handle('U'),)]
        if var == 'Paint': return [(handle('T'), NONE), (handle('U'), NONE), (handle('T'), some(('adt', 0, ()))), (handle('T'), some(('adt', 1, ())))]
        if var == 'Number': return [(('flt', 0.0),), (('flt', 1.0),), (('flt', -1.0),), (('flt', 1.0000001),)]
        if var == 'String': return [(('str', ''),), (('str', 'a'),), (('str', 'A'),), (('str', 'a '),)]
        return None
    vals = []
    for var, i in L.av.items():
        nf = len(p.types[L.av_ty]['v'][i]['f'])
        ps = payloads(var)
        vals += [(var, ('adt', i, x), True) for x in ps] if ps is not None else [(var, ('adt', i, tuple(('sym', 'f%d' % k) for k in range(nf))), False)]
    for v1, x, known1 in vals:
        for v2, y, known2 in vals:
            if v1 == v2 and not known1: continue
            st = State(); st.heap['T'] = L.cell(); st.heap['U'] = L.cell()
            nm = 'equality of %s and %s' % (show_av(L, x), show_av(L, y))
            for r, why in const_runs(p, ctx, 'v_eq', [ref(x), ref(y)], st):
                if r is None: ctx.undecided(nm, why); continue
                ctx.judge(nm, r == ('ret', boolv(x == y)), 'eq:%s:%s' % (v1, v2), '%s is %s' % (nm, str(r[1])[:80]))

def C27(p, ctx):
    ctx.rule = ('Constant propagation of the name helpers (QName/QNameRef conversions, id(), has_id(), is_svg(), tag_id(), has_tag_name()) over every id and an unknown string, and of the svg() attribute filters over '
                'a list mixing SVG, non-SVG and unknown-name attributes: an id never equals a string name, conversions keep the name, the filters yield exactly the SVG-named attributes, in order, with their id.')
    L = Layout(p)
    def run(root, args, want, key, what, st=None):
        r, why, _ = const_run(p, ctx, root, args, st)
        nm = '%s %s' % (root, key)
        if r is None: ctx.undecided(nm, why)
        else: ctx.judge(nm, r == ('ret', want), '%s:%s' % (root, key), '%s: %s gives %s' % (what, root, str(r[1])[:80]))
    s = ('sym', 'n')
    ids = sorted(L.aid.items(), key=lambda z: z[1])
    a0 = ids[0][1]
    for n, i in ids:
        j = (i + 1) % len(ids)
        run('ax_id', [ref(L.attr(L.id_name(i), ('sym', 'v')))], some(('adt', i, ())), n, 'Attribute::id of ' + n)
        run('ax_has_id', [ref(L.attr(L.id_name(i), ('sym', 'v'))), ('adt', i, ())], TRUE, n, 'Attribute::has_id of ' + n)
        run('ax_has_id', [ref(L.attr(L.id_name(i), ('sym', 'v'))), ('adt', j, ())], FALSE, n + '/other', 'Attribute::has_id of ' + n)
        run('ax_is_svg', [ref(L.attr(L.id_name(i), ('sym', 'v')))], TRUE, n, 'Attribute::is_svg of ' + n)
        run('q_has_id', [ref(L.id_name(i)), ('adt', i, ())], TRUE, n, 'QName::has_id'); run('q_has_id', [ref(L.id_name(i)), ('adt', j, ())], FALSE, n + '/other', 'QName::has_id')
        run('q_ref_has_id', [ref(L.id_nameref(i)), ('adt', i, ())], TRUE, n, 'QNameRef::has_id'); run('q_ref_has_id', [ref(L.id_nameref(i)), ('adt', j, ())], FALSE, n + '/other', 'QNameRef::has_id')
        run('q_as_ref', [ref(L.id_name(i))], L.id_nameref(i), n, 'QName::as_ref'); run('q_from_ref', [L.id_nameref(i)], L.id_name(i), n, 'QName::from(QNameRef)'); run('q_from_id', [('adt', i, ())], L.id_nameref(i), n, 'QNameRef::from(id)')
    for s in [('sym', 'n')] + [('str', w) for w in WORDS]:
        k = 'non-SVG' if s[0] == 'sym' else 'non-SVG "%s"' % s[1]
        run('ax_id', [ref(L.attr(L.str_name(s), ('sym', 'v')))], NONE, k, 'Attribute::id'); run('ax_has_id', [ref(L.attr(L.str_name(s), ('sym', 'v'))), ('adt', a0, ())], FALSE, k, 'Attribute::has_id')
        run('ax_is_svg', [ref(L.attr(L.str_name(s), ('sym', 'v')))], FALSE, k, 'Attribute::is_svg'); run('q_has_id', [ref(L.str_name(s)), ('adt', a0, ())], FALSE, k, 'QName::has_id'); run('q_ref_has_id', [ref(L.str_nameref(s)), ('adt', a0, ())], FALSE, k, 'QNameRef::has_id')
        run('q_as_ref', [ref(L.str_name(s))], L.str_nameref(s), k, 'QName::as_ref'); run('q_from_ref', [L.str_nameref(s)], L.str_name(s), k, 'QName::from(QNameRef)'); run('q_from_str', [s], L.str_nameref(s), k, 'QNameRef::from(&str)')
    s = ('sym', 'n'); k = 'non-SVG'
    # tag names
    for n, i in sorted(L.eid.items()):
        j = (i + 1) % len(L.eid)
        for tag, arg, w, key in ((('adt', L.qn['Id'], (('adt', i, ()),)), ('adt', L.qrn['Id'], (('adt', i, ()),)), TRUE, 'same'), (('adt', L.qn['Id'], (('adt', i, ()),)), ('adt', L.qrn['Id'], (('adt', j, ()),)), FALSE, 'other'),
                                 (('adt', L.qn['Id'], (('adt', i, ()),)), L.str_nameref(s), FALSE, 'string'), (L.str_name(s), ('adt', L.qrn['Id'], (('adt', i, ()),)), FALSE, 'id of non-SVG')):
            st = State(); st.heap['N'] = L.cell(tag=tag)
            run('n_has_tag_name', [ref(handle('N')), arg], w, n + '/' + key, 'has_tag_name', st)
        st = State(); st.heap['N'] = L.cell(tag=('adt', L.qn['Id'], (('adt', i, ()),)))
        run('n_tag_id', [ref(handle('N'))], some(('adt', i, ())), n, 'tag_id', st)
    st = State(); st.heap['N'] = L.cell(tag=L.str_name(s)); run('n_tag_id', [ref(handle('N'))], NONE, k, 'tag_id', st)
    for w in WORDS:
        st = State(); st.heap['N'] = L.cell(tag=L.str_name(('str', w))); run('n_tag_id', [ref(handle('N'))], NONE, 'non-SVG "%s"' % w, 'tag_id', st)
        for n, i in sorted(L.eid.items()):
            st = State(); st.heap['N'] = L.cell(tag=L.str_name(('str', w))); run('n_has_tag_name', [ref(handle('N')), ('adt', L.qrn['Id'], (('adt', i, ()),))], FALSE, n + '/"%s"' % w, 'has_tag_name', st)
            st = State(); st.heap['N'] = L.cell(tag=('adt', L.qn['Id'], (('adt', i, ()),))); run('n_has_tag_name', [ref(handle('N')), L.str_nameref(('str', w))], FALSE, n + '/string "%s"' % w, 'has_tag_name', st)
    st = State(); st.heap['N'] = L.cell(tag=L.str_name(s)); run('n_has_tag_name', [ref(handle('N')), L.str_nameref(s)], TRUE, 'same string', 'has_tag_name', st)
    # filters
    A = [L.attr(L.id_name(3), ('sym', 'v0')), L.attr(L.str_name(s), ('sym', 'v1')), L.attr(L.id_name(7), ('sym', 'v2')), L.attr(('sym', 'nm'), ('sym', 'v3'))]
    for root, sink in (('a_iter_svg', 'sink_attr'), ('a_iter_svg_mut', 'sink_attr_mut')):
        I = Interp(p, models.lookup(), dict(max_steps=20000))
        def ob(I, st, inst, args):
            if inst.path.split('::')[-1] == sink: st.ev = st.ev + (('sink', args[0], I.read(st, args[1][1], args[1][2]) if args[1][0] == 'ref' else args[1]),)
        I.observers.append(ob)
        st = State(); st.heap['A'] = {'val': ('adt', 0, (('vec', tuple(A)),))}
        try: outs = I.run(p.roots[root], [('ref', ('H', 'A'), ())], st)
        except Stop as e: ctx.undecided(root, e); continue
        ctx.absorb(I); ctx.paths += len(outs)
        for o in outs:
            if o.kind != 'ret' or o.state.taint: ctx.undecided(root, o.msg or o.state.taint); continue
            d = o.state.facts.get(('t', 'discr', ('sym', 'nm'), L.attrname_ty))
            exp = [(('adt', 3, ()), A[0]), (('adt', 7, ()), A[2])]
            got = [(e[1], e[2]) for e in o.state.ev]
            if d is not None and d[0] == '=' and d[1] == L.qn['Id']: exp.append((None, A[3]))
            elif d is None and len(got) == 3: ctx.undecided(root, 'name of the unknown attribute not decided'); continue
            good = len(exp) == len(got) and all(w[1] == g[1] and (w[0] is None or w[0] == g[0]) for w, g in zip(exp, got))
            ctx.judge(root, good, root, '%s over [SVG, non-SVG, SVG, unknown] yields %d attributes, expected %d SVG ones with their ids in order' % (root, len(got), len(exp)))

    # svg() on nodes
    from dommode import Dom, mref
    D = Dom(p)
    B = D.new()
    idt = lambda x: ('adt', L.qn['Id'], (x,)); nmt = lambda x: ('adt', L.qn['Name'], (x,))
    B.node('N', tag=idt(('sym', 't0')), kids=['A', 'B', 'C', 'E', 'F', 'H'])
    B.node('A', tag=nmt(('sym', 's1')), kids=['A1', 'A2']); B.node('A1', tag=idt(('sym', 't1'))); B.node('A2', 'Text')
    B.node('B', tag=idt(('sym', 't2')), kids=['B1', 'B2']); B.node('B1', 'Comment'); B.node('B2', tag=nmt(('sym', 's2')))
    B.node('C', 'Text'); B.node('E', tag=idt(('sym', 't3'))); B.node('F', 'Comment'); B.node('H', tag=idt(('adt', L.eid['Style'], ())))
    ids = {n: B.n[n]['tag'][2][0] for n in ('N', 'A1', 'B', 'E', 'H')}
    for root, want in (('i_children_svg', ['B', 'E', 'H']), ('i_descendants_svg', ['N', 'A1', 'B', 'E', 'H'])):
        I = D.interp()
        def ob(I, st, inst, args):
            if inst.path.split('::')[-1] == 'sink_node': st.ev = st.ev + (('sink', args[0], unhandle(args[1])),)
        I.observers.append(ob)
        try: outs = I.run(p.roots[root], [mref('N')], B.state())
        except Stop as e: ctx.undecided(root, e); continue
        ctx.absorb(I); ctx.paths += len(outs)
        for o in outs:
            if o.kind == 'panic' and not o.state.taint: ctx.violated(root, root + ':panic', '%s panics: %s' % (root, o.msg)); continue
            if o.kind != 'ret' or o.state.taint: ctx.undecided(root, o.msg or o.state.taint); continue
            got = [(e[2], e[1]) for e in o.state.ev]
            ctx.judge(root, got == [(n, ids[n]) for n in want], root, '%s yields the nodes %s, expected the SVG elements %s with their ids' % (root, [g[0] for g in got], want))

def show_av(L, v):
    if v[0] == 'adt' and v[1] in L.avn: return L.avn[v[1]] + ('(%s)' % ', '.join(str(x)[:40] for x in v[2]) if v[2] else '')
    return str(v)[:80]

def gen():
    import common, sys
    p = common.load(sys.argv[1] if len(sys.argv) > 1 else None)
    N = Names(p); L = N.L
    S = dict(attributes=[N.attr[i] for i in sorted(N.attr)], elements=[N.elem[i] for i in sorted(N.elem)], attribute_class={}, element_class={}, defaults={})
    for pr in attr_preds(p):
        S['attribute_class'][pr[3:]] = [s for i, s in N.attr.items() if const_run(p, None, pr, [ref(('adt', i, ()))])[0] == ('ret', TRUE)]
    for pr in elem_preds(p):
        def q(i):
            st = State(); st.heap['N'] = L.cell(tag=('adt', L.qn['Id'], (('adt', i, ()),)))
            return const_run(p, None, pr, [ref(handle('N'))], st)[0] == ('ret', TRUE)
        S['element_class'][pr[3:]] = [s for i, s in N.elem.items() if q(i)]
    for i, s in N.attr.items():
        r, _, _ = const_run(p, None, 'v_default_value', [('adt', i, ())])
        if r[1] != NONE: S['defaults'][s] = dlit(L, r[1][2][0])
    json.dump(S, open(SPEC, 'w'), indent=1)
if __name__ == '__main__': gen()
