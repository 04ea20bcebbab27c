"""White-space processing of text content (C21), over abstract documents whose non-space characters are generic:
placeholders that differ from every character the program mentions, one to three bytes long."""
import itertools, re
from interp import *
import models, par
from xmlmode import *
from svgspec import *
from parser_checks import Env, short

UNI = '\x85\u1680\u2003\u2009\u200b\u2028\u2029\u202f\u205f\u3000\ufeff\u00ad\u180e\u0301\U0001f600.-_&<;0Za\'"'
A, B, C3, NB = '\x01', '\x02', '\ue001', '\xa0'      # generic characters of one and three bytes; U+00A0 is white space for Unicode, not for XML
XWS = ' \t\n\r'
def words(s): return [x for x in re.split('[ \t\n\r]+', s) if x]
def one(s): return re.sub('[\t\n\r]', ' ', s)
def coll(s): return re.sub(' +', ' ', one(s))
def vis(s): return repr(s.replace(A, 'a').replace(B, 'b').replace(C3, '\u4e00')).replace('\\xa0', '<nbsp>')

# content: str | ('!',) comment | (space, [content]) tspan with optional xml:space
def build(X, parent, content):
    for c in content:
        if isinstance(c, str): X.text(parent, c)
        elif c[0] == '!': X.text(parent, 'c', 'Comment')
        else: build(X, X.elem(parent, c[2] if len(c) > 2 else 'tspan', [(XML, 'space', c[0])] if c[0] else []), c[1])
def xml_of(content, sp=None, tag='text'):
    r = '<%s%s>' % (tag, ' xml:space=%s' % sp if sp else '')
    for c in content: r += vis(c)[1:-1] if isinstance(c, str) else '<!-- -->' if c[0] == '!' else xml_of(c[1], c[0], c[2] if len(c) > 2 else 'tspan')
    return r + '</%s>' % tag
def texts(content):
    for c in content:
        if isinstance(c, str): yield c
        elif c[0] != '!': yield from texts(c[1])
def modes(content, sp):
    """set of xml:space modes of the text nodes"""
    for c in content:
        if isinstance(c, str): yield sp
        elif c[0] != '!': yield from modes(c[1], 'preserve' if c[0] == 'preserve' else 'default' if c[0] else sp)

def align(E, sn, n, content, sp, out):
    """pairs (source text, result, mode) of the element's text nodes; a message if the structure differs"""
    L = E.L; ks = list(sn[n]['kids']); i = 0
    for c in content:
        ty = sn[ks[i]]['type'][1] if i < len(ks) else None
        if isinstance(c, str):
            if ty == L.nt['Text']: out.append((c, sn[ks[i]]['text'], sp)); i += 1
            else: out.append((c, None, sp))
        elif c[0] == '!':
            if ty != L.nt['Comment']: return 'a comment is lost'
            i += 1
        else:
            if ty != L.nt['Element']: return 'a tspan is lost'
            want = [('Space', norm(L.val('String', ('str', c[0]))))] if c[0] else []
            if E.attrs(sn[ks[i]]) != want: return 'attributes of a tspan are %s' % E.show(E.attrs(sn[ks[i]]))
            m = align(E, sn, ks[i], c[1], 'preserve' if c[0] == 'preserve' else 'default' if c[0] else sp, out)
            if m: return m
            i += 1
    if i != len(ks): return 'extra nodes'
    return None
def judge(E, sn, n, content, sp):
    """sp: effective mode of the text element"""
    out = []
    m = align(E, sn, n, content, sp, out)
    if m: return m
    for src, res, mode in out:
        if res is None: continue
        if res[0] != 'str': return '?'
        r = res[1]
        if r == '': return 'an empty text node is left'
        if any(c in r for c in '\t\n\r'): return 'tab or newline is left in %s' % vis(r)
        if mode == 'default' and '  ' in r: return 'spaces of %s are not collapsed: %s' % (vis(src), vis(r))
        k = one(src) if mode == 'preserve' else coll(src)
        if r not in {k, k.lstrip(' ') if mode == 'default' else k[1:], k.rstrip(' ') if mode == 'default' else k[:-1], k.strip(' ')}: return '%s became %s' % (vis(src), vis(r))
    tot = ''.join(r[1] for _, r, _ in out if r is not None)
    if words(tot) != words(''.join(s for s, _, _ in out)): return 'the words of %s became %s' % (vis(''.join(s for s, _, _ in out)), vis(tot))
    for src, res, mode in out:
        if words(src) != words('' if res is None else res[1]): return 'characters of %s are lost or moved: %s' % (vis(src), vis('' if res is None else res[1]))
    ms = {m for _, _, m in out}
    if ms == {'preserve'}:
        for src, res, mode in out:
            if (res[1] if res is not None else '') != one(src): return 'preserved text %s became %s' % (vis(src), vis(res[1] if res is not None else ''))
    if len(out) == 1 and ms == {'default'}:
        r = out[0][1][1] if out[0][1] is not None else ''
        if r != coll(out[0][0]).strip(' '): return '%s became %s instead of %s' % (vis(out[0][0]), vis(r), vis(coll(out[0][0]).strip(' ')))
    if ms == {'default'} and len(out) > 1:
        ws = [bool(words(s)) for s, _, _ in out]; src = ''.join(s for s, _, _ in out)
        if ws[0] and tot.startswith(' '): return 'the leading space is kept: %s' % vis(tot)
        if ws[-1] and tot.endswith(' '): return 'the trailing space is kept: %s' % vis(tot)
        if all(ws) and tot != coll(src).strip(' '): return '%s became %s instead of %s' % (vis(src), vis(tot), vis(coll(src).strip(' ')))
    return None

SHAPES = [A, ' ', '\n ' + B, A + ' \t', ' ' + C3 + '\r\n', B + '  ' + A]
def structures():
    """functions of k texts giving the content of a text element, xml:space values as parameters"""
    d = None; P = 'preserve'; D = 'default'
    yield 1, lambda t: [(d, [t[0]])]
    yield 1, lambda t: [(d, [(d, [t[0]])])]
    yield 1, lambda t: [(d, [(d, [(d, [t[0]])])])]
    yield 1, lambda t: [(d, [(d, [(d, [(d, [(d, [t[0]])])])])])]
    yield 2, lambda t: [t[0], (d, [(d, [(d, [t[1]])])])]
    yield 2, lambda t: [(d, [(d, [(d, [(d, [t[0]])])])]), t[1]]
    yield 2, lambda t: [t[0], (d, [(d, [(d, [(d, [(d, [t[1]])])])])])]
    yield 1, lambda t: [(P, [t[0]])]
    yield 1, lambda t: [(P, [(d, [t[0]])])]
    yield 1, lambda t: [(d, [(P, [t[0]])])]
    yield 1, lambda t: [(P, [(D, [t[0]])])]
    yield 1, lambda t: [('!',), (d, [('!',), t[0]]), ('!',)]
    yield 1, lambda t: [(d, []), (d, [(d, []), t[0]])]
    yield 2, lambda t: [t[0], (d, [t[1]])]
    yield 2, lambda t: [(d, [t[0]]), t[1]]
    yield 2, lambda t: [(d, [t[0]]), (d, [t[1]])]
    yield 2, lambda t: [t[0], ('!',), t[1]]
    yield 2, lambda t: [('!',), t[0], (d, []), t[1]]
    yield 2, lambda t: [t[0], (P, [t[1]])]
    yield 2, lambda t: [t[0], (D, [t[1]])]
    yield 2, lambda t: [(P, [t[0]]), t[1]]
    yield 2, lambda t: [(D, [t[0]]), (P, [t[1]])]
    yield 2, lambda t: [(d, [(d, [t[0]])]), (d, [t[1]])]
    yield 2, lambda t: [(P, [t[0]]), (P, [t[1]])]
    yield 2, lambda t: [(P, [t[0], (d, [t[1]])])]
    yield 2, lambda t: [(d, [(P, [t[0]])]), (P, [(d, [t[1]])])]
    yield 2, lambda t: [(P, [(D, [t[0]]), t[1]])]
    yield 3, lambda t: [t[0], (d, [t[1]]), t[2]]
    yield 3, lambda t: [t[0], (d, [t[1], (d, [t[2]])])]
    yield 3, lambda t: [(d, [t[0]]), t[1], (d, [t[2]])]
    yield 3, lambda t: [(d, [(d, [t[0]]), t[1]]), t[2]]
    yield 3, lambda t: [t[0], (P, [t[1]]), t[2]]
    yield 3, lambda t: [t[0], ('!',), t[1], ('!',), t[2]]
    yield 4, lambda t: [t[0], (d, [t[1]]), t[2], (d, [t[3]])]
    yield 4, lambda t: [t[0], (d, [t[1], (d, [t[2]]), t[3]])]
    yield 4, lambda t: [(d, [t[0]]), (d, [t[1]]), (d, [t[2]]), t[3]]
def others():
    """other elements inside text"""
    for g in ('tref', 'textPath', 'altGlyph', 'a'):
        yield 1, g, lambda t, g=g: [(None, [t[0]], g)]
        yield 1, g, lambda t, g=g: [('preserve', [(None, [t[0]])], g)]
        yield 2, g, lambda t, g=g: [t[0], (None, [t[1]], g)]
        yield 2, g, lambda t, g=g: [(None, [t[0]], g), t[1]]
        yield 2, g, lambda t, g=g: [(None, [(None, [t[0]])], g), (None, [t[1]])]
def C21(p, ctx):
    ctx.rule = ('Abstract interpretation of Document::from_str on text elements whose white space is explicit and whose other characters are generic (differ from every constant of the program; one and three bytes long, and U+00A0). '
                'Single text nodes: every string of up to 4 characters over {generic, space, tab, newline, carriage return}; several nodes: every assignment of the white-space shapes to the text nodes of the listed tspan/comment structures; xml:space absent, default, preserve, other, on the element, on a tspan or inherited.')
    E = Env(p); thorough = ctx.tier == 'thorough'
    def run(c, fam, cases):
        """cases: [(content, xml:space of the text element, xml:space of an enclosing g or None)]"""
        X = XDoc(); s = X.elem(0, 'svg'); loc = []
        for content, sp, anc, *ex in cases:
            g = X.elem(s, 'g', [(XML, 'space', anc)] if anc else [])
            build(X, X.elem(g, ex[0][0] if ex else 'text', (list(ex[0][1]) if ex else []) + ([(XML, 'space', sp)] if sp else [])), content)
        I, outs = E.P.run(X, State(), stub=E.stub(), opts=dict(sig_after=300))
        c.absorb(I); c.paths += len(outs)
        for o in outs:
            if o.kind == 'stuck' or o.state.taint: c.undecided(fam, o.msg or sorted(o.state.taint)); continue
            if o.kind != 'ret' or o.value[1] != 0:
                if len(cases) > 1:
                    for x in cases: run(c, fam, [x])
                else: c.violated(fam, 'panic:' + fam, 'Document::from_str %s on %s' % ('panics (%s at %s)' % (o.msg, o.site) if o.kind != 'ret' else 'fails', xml_of(*cases[0][:2])))
                continue
            sn, root = E.tree(o)
            svg = sn[root]['kids'][0]
            gs = sn[svg]['kids']
            if len(gs) != len(cases): c.violated(fam, 'structure', 'elements around text are lost'); continue
            for (content, sp, anc, *ex), g in zip(cases, gs):
                eff = sp or anc or 'default'
                eff = eff if eff == 'preserve' else 'default'
                ks = sn[g]['kids']
                if len(ks) != 1: c.violated(fam, 'structure', 'text element is lost: %s' % xml_of(content, sp)); continue
                want = [('Space', norm(E.L.val('String', ('str', sp))))] if sp else []
                if [x for x in E.attrs(sn[ks[0]]) if not ex or x[0] == 'Space'] != want: r = 'attributes of the text element are %s' % E.show(E.attrs(sn[ks[0]]))
                elif E.attrs(sn[g]) != ([('Space', norm(E.L.val('String', ('str', anc))))] if anc else []): r = 'attributes of the parent of the text element are %s' % E.show(E.attrs(sn[g]))
                else: r = judge(E, sn, ks[0], content, eff)
                if r is None: c.ok(fam, '%s ok' % xml_of(content, sp))
                elif r == '?': c.undecided(fam, 'text value')
                else: c.violated(fam, fam.replace(' ', '-'), '%s: %s' % (xml_of(content, sp), r))
            if E.attrs(sn[svg]): c.violated(fam, 'attrs-svg', 'attributes appear on the svg element')
    jobs = []
    strs = []
    for n in range(1, 5):
        for t in itertools.product('a \t\n\r', repeat=n):
            k = itertools.count()
            strs.append(''.join((A, C3, B)[next(k) % 3] if c == 'a' else c for c in t))
    nb = len(strs)
    strs += [NB, NB + A, ' ' + NB, A + NB, NB + ' ' + NB, A + NB + NB + B, A + A, A + A + A, A + ' ' + A, ' ' + A + A, C3, C3 + C3, ' ' + C3, C3 + ' ', A + B + '  \t  \n ' + C3 + C3, ' ' * 5, '\t' * 3 + A]
    # characters with a meaning of their own elsewhere: white space of Unicode but not of XML, zero-width and markup characters, letters and digits
    for ch in UNI: strs += [ch, ch + A, A + ch, ' ' + ch, ch + ' ' + ch, A + ch + ch + B, ' ' + A + ch + ' ']
    long_ = [(A + B + C3 + ' ') * 20, ' ' * 70 + A, A + '\n' * 300 + B, A * 280, (C3 + ' ') * 90 + ' \t', ((A + B) * 3 + '  ') * 18 + NB, ' ' + C3 * 40, (C3 + ' ') * 25, (A + '\r') * 120, (A + '\t\r\n' + B + '\r') * 45, '\n\r' * 130 + A]
    sps = [(None, None), ('preserve', None), ('default', None), ('other', None), (None, 'preserve'), ('default', 'preserve'), ('preserve', 'default')]
    for sp, anc in sps:
        fam = 'single text node, xml:space %s%s' % (sp, ', on the parent %s' % anc if anc else '')
        ss = strs if thorough or (sp, anc) in sps[:2] else [x for x in strs[:nb] if len(x) < 4] + strs[nb:nb + 17 + 7 * 11]
        for i in range(0, len(ss), 24): jobs.append((fam, [([x], sp, anc) for x in ss[i:i + 24]]))
        for x in long_: jobs.append((fam + ', long text', [([x], sp, anc)]))
    for x, y in ((long_[0], ' ' + A), (A + ' ', long_[0]), (long_[4], long_[1]), (long_[2], long_[2])):
        jobs.append(('several long text nodes', [([x, (None, [y])], None, None), ([(None, [x]), y], None, None), ([x, (None, [y])], 'preserve', None)]))
    for si, (k, f) in enumerate(structures()):
        if ctx.tier == 'panic' and k > 3: continue
        sh = SHAPES if k < 3 or thorough else SHAPES[:4] if k == 4 or ctx.tier == 'panic' else SHAPES[:5]
        for sp, anc in sps[:2] + ([(None, 'preserve'), ('default', 'preserve')] if k < 3 or thorough else []):
            cs = [(f(t), sp, anc) for t in itertools.product(sh, repeat=k)]
            fam = 'structure %s, xml:space %s%s' % (xml_of(f(['T'] * k)), sp, ', on the parent %s' % anc if anc else '')
            for i in range(0, len(cs), 24): jobs.append((fam, cs[i:i + 24]))
    # many text nodes
    for nk in (9, 15):
        for a in range(1, 4):
            sh = [SHAPES[(i * a + i // 3 + a) % len(SHAPES)] for i in range(nk)]
            flat = [sh[i] if i % 2 else (None, [sh[i]]) for i in range(nk)]; spans = [(None, [x]) for x in sh]
            deep = [sh[0]]
            for x in sh[1:6]: deep = [x, (None, deep)]
            for sp in (None, 'preserve'): jobs += [('many text nodes, xml:space %s' % sp, [(x, sp, None)]) for x in (flat, spans, deep)]
    # other attributes of the element do not matter
    for tag in ('text', 'tref', 'textPath', 'tspan', 'altGlyph'):
        for at in ([('id', 'tt')], [('?FontFamily', 'v')], [(XLINK, '?Href', 'x')], [('id', 'tt'), ('class', 'k'), ('?Lang', 'v'), (XML, '?Lang', 'v')]):
            for sp in (None, 'preserve'):
                cs = [(f(t), sp, None, (tag, at)) for k, f in ((1, lambda t: [t[0]]), (1, lambda t: [(None, [t[0]])]), (2, lambda t: [(None, [t[0]]), t[1]]), (2, lambda t: [('!',), t[0], (None, [t[1]])]))
                      for t in itertools.product([x for x in SHAPES if x.strip(XWS)][:4], repeat=k)]
                m = 20
                if at[0][0] == XLINK: cs = cs[::5]; m = 3        # each value may or may not be a reference
                for i in range(0, len(cs), m): jobs.append(('<%s> with %s, xml:space %s' % (tag, ' '.join(x[-2] for x in at), sp), cs[i:i + m]))
    for k, g, f in others():
        # white-space-only text is kept in text, tspan and tref only
        for sp, anc in sps[:2]:
            cs = [(f(t), sp, anc) for t in itertools.product(SHAPES if g == 'tref' else [x for x in SHAPES if x.strip(XWS)], repeat=k)]
            for i in range(0, len(cs), 24): jobs.append(('structure %s, xml:space %s' % (xml_of(f(['T'] * k)), sp), cs[i:i + 24]))
    par.each(ctx, jobs, lambda c, j: run(c, *j), 1)
