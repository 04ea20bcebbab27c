"""Structure of parsed documents (C23) and absence of panics in the parser (C07)."""
import re, itertools
from interp import *
import models, par
from xmlmode import *
from svgspec import *
from parser_checks import Env, short
from report import Ctx

OTHER = 'http://example.com/other'
TXTC = ('Text', 'Tspan', 'Tref')

def expected(E, X, k):
    """expected children [(kind, ...)] of the node made for XML node k; element names are '?Variant' placeholders or concrete SVG names"""
    e = X.n[k]; out = []
    pn = ename(E, e['name']) if e['kind'] == 'Element' else None
    for c in e['kids']:
        n = X.n[c]
        if n['kind'] == 'Comment': out.append(('comment', S(n['text'])))
        elif n['kind'] == 'Text':
            t = S(n['text'])
            if t[0] == 'str' and not t[1].strip(models.WS) and pn not in TXTC: continue
            out.append(('text', t))
        elif n['kind'] == 'Element':
            en = ename(E, n['name'])
            if n['ns'] != SVG or en is None or en == 'Style': continue
            out.append(('element', en, eattrs(E, n), expected(E, X, c)))
    return out
CAMEL = {}
def ename(E, n):
    if n.startswith('?'): return None if n == '?unknown' else n[1:]
    if not CAMEL:
        for x in E.tables['elements']: CAMEL[x] = ''.join(w[:1].upper() + w[1:] for w in x.split('-'))
    v = CAMEL.get(n)
    return v if v in E.eids else None
def eattrs(E, n):
    """(id, [(name, value)]) expected for string-typed attributes"""
    ident = ('str', ''); at = []
    for ns, an, v in n['attrs']:
        if ns not in (None, SVG, XLINK, XML): continue
        if an == 'id': ident = S(v); continue
        if an in ('class', 'style', '?unknown', 'type', 'foo'): 
            if an != 'type': continue
        nm = an[1:] if an.startswith('?') else {'space': 'Space', 'type': 'Type', 'title': 'Title', 'version': 'Version'}.get(an)
        if nm is None or nm in ('Style', 'Class'): continue
        if nm == 'Id': ident = S(v); continue
        at.append((nm, norm(E.L.val('String', models.trimmed('trim', S(v))))))
    return ident, at
def show_tree(t):
    r = []
    for x in t:
        if x[0] == 'element': r.append('<%s%s>[%s]' % (x[1], ' id' if x[2][0] != ('str', '') else '', show_tree(x[3])))
        else: r.append(x[0] + ' ' + short(x[1])[:20])
    return ', '.join(r)
def actual(E, sn, n):
    out = []
    for k in sn[n]['kids']:
        e = sn[k]; ty = e['type'][1]
        if ty == E.L.nt['Comment']: out.append(('comment', e['text']))
        elif ty == E.L.nt['Text']: out.append(('text', e['text']))
        elif ty == E.L.nt['Element']:
            tg = e['tag']
            nm = E.eids[tg[2][0][1]] if tg[0] == 'adt' and tg[1] == E.L.qn['Id'] and tg[2][0][0] == 'adt' else tg
            out.append(('element', nm, (e['id'], E.attrs(e)), actual(E, sn, k)))
        else: out.append(('?', e['type']))
    return out
def diff(a, b, path='document'):
    """first difference between expected and actual trees"""
    for i in range(max(len(a), len(b))):
        if i >= len(b): return '%s of %s is missing' % (desc(a[i]), path)
        if i >= len(a): return 'unexpected %s in %s' % (desc(b[i]), path)
        x, y = a[i], b[i]
        if x[0] != y[0]: return 'expected %s in %s, found %s' % (desc(x), path, desc(y))
        if x[0] in ('comment', 'text'):
            if x[1] != y[1]: return '%s of %s changed to %s' % (desc(x), path, desc(y))
            continue
        if x[1] != y[1]: return 'expected %s in %s, found %s' % (desc(x), path, desc(y))
        if x[2][0] != y[2][0]: return 'id of %s is %s, not %s' % (desc(x), short(y[2][0]), short(x[2][0]))
        if sorted(map(str, x[2][1])) != sorted(map(str, y[2][1])): return 'attributes of %s are [%s], not [%s]' % (desc(x), ', '.join(n for n, _ in y[2][1]), ', '.join(n for n, _ in x[2][1]))
        r = diff(x[3], y[3], path + '/' + str(x[1]))
        if r: return r
    return None
def desc(x): return '<%s>' % (x[1],) if x[0] == 'element' else '%s %s' % (x[0], short(x[1])[:30])

def C23(p, ctx):
    ctx.rule = ('Abstract interpretation of Document::from_str on abstract XML documents; the resulting tree (elements, ids, attributes, comments, text nodes, order) must be the image of the input: '
                'elements of the SVG namespace with a known name and attributes without a namespace or of the SVG, xlink and xml namespaces with a known name; everything else is dropped with its content, and so are style elements, style and class attributes, processing instructions, and white space outside text, tspan and tref. '
                'All child lists of up to three (thorough: four) nodes over elements (known, unknown, foreign, without a namespace, style), text, white space, comments and processing instructions, in several parents; all element names; all attribute names.')
    E = Env(p); L = E.L
    perr = {v['n']: i for i, v in enumerate(p.types[p.adt('ParserError')[0]]['v'])}
    def run(c, ob, X, err=None, opts=None, cfg=None, key=None, post=None):
        I, outs = E.P.run(X, State(), stub=E.stub(), opts=opts, **(cfg or {}))
        c.absorb(I); c.paths += len(outs)
        seen = set()
        for o in outs:
            if o.kind == 'stuck' or o.state.taint: c.undecided(ob, o.msg or sorted(o.state.taint)); continue
            if o.kind != 'ret': c.violated(ob, 'panic:' + (key or ob).replace(' ', '-'), 'Document::from_str panics (%s at %s): %s' % (o.msg, o.site, ob)); continue
            if o.value[0] != 'adt': c.undecided(ob, 'result'); continue
            if o.value[1] == 1:
                e = o.value[2][0]
                n = [k for k, i in perr.items() if e[0] == 'adt' and e[1] == i]
                seen.add(n[0] if n else '?')
                if err is None or not n or n[0] not in err: c.violated(ob, 'error:' + (key or ob).replace(' ', '-'), 'Document::from_str fails with %s: %s' % (n or e, ob))
                else: c.ok(ob, '%s -> %s' % (ob, n[0]))
                continue
            seen.add('ok')
            if err is not None and 'ok' not in err: c.violated(ob, 'accepted:' + (key or ob).replace(' ', '-'), 'Document::from_str accepts a document that has no svg element: ' + ob); continue
            sn, root = E.tree(o)
            act = actual(E, sn, root)
            r = post(o, sn, root, act) if post else diff(expected(E, X, 0), act)
            if r is None: c.ok(ob, '%s -> %s' % (ob, show_tree(act)[:200]))
            else: c.violated(ob, (key or ob).replace(' ', '-'), '%s: %s' % (ob, r))
        for e in err or ():
            if e not in seen and outs and all(o.kind == 'ret' for o in outs): c.violated(ob, 'noerror:' + (key or ob).replace(' ', '-'), 'Document::from_str never returns %s: %s' % (e, ob))
    A = '\x01'
    def item(X, par_, k):
        if k == 'el': X.elem(par_, 'rect', [('?FontFamily', ('sym', 'ff'))])
        elif k == 'nested': g = X.elem(par_, 'g', [('id', ('sym', 'gid'))]); X.text(g, ('sym', 'c1'), 'Comment'); X.elem(g, 'path')
        elif k == 'unknown': u = X.elem(par_, '?unknown', [('?FontFamily', 'v')]); X.elem(u, 'rect'); X.text(u, A); X.text(u, 'c', 'Comment')
        elif k == 'foreign': u = X.elem(par_, 'rect', [('id', 'f')], ns=OTHER); X.elem(u, 'rect'); X.text(u, A); X.text(u, 'c', 'Comment')
        elif k == 'nons': u = X.elem(par_, 'g', ns=None); X.elem(u, 'rect'); X.text(u, A)
        elif k == 'style': u = X.elem(par_, 'style', [('type', 'text/other'), ('?Media', 'v'), ('?Title', 'v'), ('id', 'st'), ('class', 'k'), (XML, '?Space', 'preserve'), ('?FontFamily', 'v'), ('foo', 'v')]); X.text(u, A); X.elem(u, 'rect'); X.text(u, 'c', 'Comment')
        elif k == 'barestyle': X.elem(par_, 'style')
        elif k == 'text': X.text(par_, A + '\ue001')
        elif k == 'ws': X.text(par_, '\n \t')
        elif k == 'ws2': X.text(par_, '\r')
        elif k == 'comment': X.text(par_, ('sym', 'cmt'), 'Comment')
        elif k == 'pi': X.add(par_, 'PI', text='pi')
    OTH = {('sym', 'ff')}
    KINDS = ('el', 'nested', 'unknown', 'foreign', 'nons', 'style', 'text', 'ws', 'comment', 'pi')
    def lists(n):
        for k in range(0, n + 1):
            for t in itertools.product(KINDS, repeat=k):
                if any(a in ('text', 'ws') and b in ('text', 'ws') for a, b in zip(t, t[1:])): continue
                yield t
    NOWS = dict(opts=dict(sig_after=600))
    def content(c, job):
        parent, ls = job
        X = XDoc(); s = X.elem(0, 'svg')
        for t in ls:
            e = X.elem(s, parent)
            for k in t: item(X, e, k)
        ob = 'children of <%s>: %s ...' % (parent, '+'.join(ls[-1]) or 'none')
        run(c, ob, X, opts=dict(sig_after=600, other=OTH), key='children-of-%s' % parent)
    jobs = []
    n = 4 if ctx.tier == 'thorough' else 3
    for parent in ('g', 'svg', 'defs'): jobs.append((parent, [('ws2',), ('el', 'ws2', 'el'), ('comment', 'ws2'), ('ws2', 'nested', 'ws2')]))
    for parent, m in (('g', n), ('svg', 2), ('defs', 2), ('linearGradient', 2)):
        ls = list(lists(m))
        for i in range(0, len(ls), 20): jobs.append((parent, ls[i:i + 20]))
    par.each(ctx, jobs, content, 1)
    # in text elements (with xml:space=preserve, which leaves the text as it is)
    def in_text(c, job):
        parent, ls = job
        X = XDoc(); s = X.elem(0, 'svg')
        for t in ls:
            e = X.elem(s, parent, [(XML, '?Space', 'preserve')])
            for k in t: item(X, e, k)
        def plain(t): return [(x[0], ('str', re.sub('[\t\n\r]', ' ', x[1][1]))) if x[0] == 'text' and x[1][0] == 'str' else x[:3] + (plain(x[3]),) if x[0] == 'element' else x for x in t]
        run(c, 'children of <%s xml:space=preserve>: %s ...' % (parent, '+'.join(ls[-1]) or 'none'), X, opts=dict(sig_after=600, other=OTH), key='children-of-%s' % parent, post=lambda o, sn, root, act: diff(plain(expected(E, X, 0)), act))
    ls = list(lists(2)) + [(a, b, c_) for a in ('comment', 'ws', 'el', 'pi', 'foreign', 'text') for b in ('comment', 'ws', 'el', 'unknown') for c_ in ('comment', 'ws', 'el', 'text') if not (a in ('ws', 'text') and b == 'ws' or b == 'ws' and c_ in ('ws', 'text'))]
    par.each(ctx, [(pn, ls[i:i + 12]) for pn in ('text', 'tspan', 'tref') for i in range(0, len(ls), 12)], in_text, 1)
    # white space in every element type: kept between the children of text, tspan and tref only
    def ws(c, eid):
        X = XDoc(); s = X.elem(0, 'svg'); e = X.elem(s, '?' + eid)
        X.text(e, A); X.elem(e, '?Tspan'); X.text(e, '\n '); X.elem(e, '?Tspan'); X.text(e, A)
        def post(o, sn, root, act):
            if eid == 'Style': return None if act == [('element', 'Svg', (('str', ''), []), [])] else 'a style element is left'
            x = act[0][3][0]
            if x[1] != eid: return 'element is %s' % (x[1],)
            kinds = [y[0] for y in x[3]]
            want = ['text', 'element'] + (['text'] if eid in TXTC else []) + ['element', 'text']
            return None if kinds == want else 'children of <%s>word<tspan/> <tspan/>word</> are %s' % (eid, ', '.join(kinds))
        run(c, 'white space between the children of %s' % eid, X, opts=dict(sig_after=600), key='ws:%s' % eid, post=post)
    par.each(ctx, E.eids, ws)
    # every element name at every depth: kept
    def names(c, which):
        nm = {n: '?Rect' for n in ('e1', 'e2', 'e3', 'e4', 'e5')}; nm[which] = '?' + which
        X = XDoc(); s = X.elem(0, 'svg'); a = X.elem(s, nm['e1']); b = X.elem(a, nm['e2']); X.elem(b, nm['e3']); X.elem(a, nm['e4']); X.elem(s, nm['e5'])
        def post(o, sn, root, act):
            al = E.allowed(o.state.facts, which, E.eids, L.eid_ty)
            if 'Style' in al and al != ['Style']: al = [x for x in al if x != 'Style']
            def el(n, kids):
                return [] if n == which and al == ['Style'] else [(n if n == which else 'Rect', kids)]
            exp = el('e1', el('e2', el('e3', [])) + el('e4', [])) + el('e5', [])
            def sh(t):
                r = []
                for x in t:
                    v = x[1]
                    if isinstance(v, tuple) and v[0] == 'adt' and v[2][0][0] == 'sym': v = v[2][0][1]
                    r.append((v, sh(x[3])))
                return r
            got = sh(act[0][3]) if act else None
            return None if got == exp else 'elements are %s, expected %s' % (str(got)[:200], str(exp)[:200])
        run(c, 'an element of any type, position %s' % which, X, key='names', post=post)
    par.each(ctx, ('e1', 'e2', 'e3', 'e4', 'e5'), names, 1)
    # every element name, with and without attributes, children, text and neighbours, in several parents
    def named(c, eid):
        n = '?' + eid; X = XDoc(); s = X.elem(0, 'svg')
        X.elem(s, n); X.elem(s, 'rect'); X.elem(s, n); X.elem(s, n, [('id', 'i1')]); e = X.elem(s, n); X.text(e, 'c', 'Comment'); X.elem(e, 'rect')
        e = X.elem(s, n, [('?FontFamily', ('sym', 'ff')), ('foo', 'u')]); X.elem(e, n); X.elem(e, n, [('id', 'i2'), ('?FontFamily', ('sym', 'ff'))])
        e = X.elem(s, n, [('id', 'i3')]); X.elem(e, 'rect', [('id', 'i4')]); X.text(e, 'c', 'Comment'); e = X.elem(s, n, [('id', 'i5'), ('?FontFamily', ('sym', 'ff'))]); g = X.elem(e, 'g', [('id', 'i6')]); X.elem(g, n, [('id', 'i7')])
        for q in ('g', 'defs', 'symbol', 'clipPath'):
            g = X.elem(s, q, [('id', q)]); X.elem(g, n); X.text(g, 'c', 'Comment'); X.elem(g, n, [('?FontFamily', ('sym', 'ff'))]); X.elem(g, n)
        g = X.elem(s, 'g'); X.elem(g, n)
        for q in (OTHER, None):
            f = X.elem(s, n, [('id', 'f')], ns=q); X.elem(f, n)
        run(c, 'elements named %s' % eid, X, opts=dict(sig_after=600, other=OTH), key='named:%s' % eid)
    par.each(ctx, [e for e in E.eids if e != 'Style'], named, 4)
    # names spaces that only look like the known ones
    def nearns(c, ns):
        X = XDoc(); s = X.elem(0, 'svg')
        X.elem(s, 'rect', [(ns, '?FontFamily', 'v'), (None, '?Title', 'keep'), (ns, 'id', 'no'), (ns, '?Space', 'preserve'), (ns, 'href', 'x')])
        f = X.elem(s, 'g', [('id', 'f')], ns=ns); X.elem(f, 'rect'); X.elem(s, 'rect', [(None, 'id', 'i'), (ns, '?Media', 'v'), (None, '?FontFamily', 'keep')])
        run(c, 'the namespace %s' % ns, X, opts=dict(sig_after=600), key='namespace:%s' % ns)
    par.each(ctx, ['http://www.w3.org/2000/svg/', 'http://www.w3.org/2000/SVG', 'http://www.w3.org/2000/svg#', 'https://www.w3.org/2000/svg', 'http://example.com/svg', ' http://www.w3.org/2000/svg', 'svg', 'http://www.w3.org/2000/sv', 'http://www.w3.org/2000/',
                   'http://www.w3.org/2000/svgx', 'http://www.w3.org/2000/svg ', 'http://www.w3.org/1999/xlink/', 'http://www.w3.org/1999/XLINK', 'http://www.w3.org/1999/xlink#', 'xlink', 'http://www.w3.org/1999/xhtml', 'http://www.w3.org/1999/', 'https://www.w3.org/1999/xlink',
                   'http://www.w3.org/XML/1998/namespace/', 'http://www.w3.org/XML/1998/namespaces', 'http://www.w3.org/xml/1998/namespace', 'http://www.w3.org/XML/1998/', 'xml', 'http://www.w3.org/2000/xmlns/', 'http://www.w3.org/', 'http://www.w3.org/2000/svg-1.1',
                   'http://www.inkscape.org/namespaces/inkscape', 'http://sodipodi.sourceforge.net/DTD/sodipodi-0.dtd', 'http://purl.org/dc/elements/1.1/', 'http://www.w3.org/1999/02/22-rdf-syntax-ns#', 'urn:x', 'a', '&ns_svg;', 'http://www.w3.org/2000/svg/xlink'], nearns, 8)
    # attributes: every name in every namespace
    def attrs(c, job):
        ns, nm = job
        bad = []
        X = XDoc(); s = X.elem(0, 'svg')
        chunk = [a for a in E.aids if a not in ('Style', 'Class', 'Id') and G.get(a, ('String',))[0] == 'String']
        for i in range(0, len(chunk), 12): X.elem(s, 'rect', [(ns, '?' + a, ('sym', 'v' + a)) for a in chunk[i:i + 12]])
        X.elem(s, 'rect', [(ns, '?Class', 'c'), (ns, 'class', 'k'), (ns, '?unknown', 'u'), (ns, 'foo', 'b'), (ns, '?FontFamily', 'keep')])
        X.elem(s, 'rect', [(ns, 'id', ('sym', 'theid')), (ns, '?FontFamily', 'keep')])
        vals = {('sym', 'v' + a) for a in chunk}
        def run2():
            run(c, 'attributes in %s' % nm, X, opts=dict(other=vals, sig_after=600), key='attribute-namespace:%s' % nm)
        run2()
    par.each(ctx, [(None, 'no namespace'), (SVG, 'the SVG namespace'), (XLINK, 'the xlink namespace'), (XML, 'the xml namespace'), (OTHER, 'another namespace'), ('', 'an empty namespace')], attrs, 1)
    # attribute lists: what is kept does not depend on the neighbours
    def akind(k, i):
        return {'known': (None, '?' + STR[i], ('sym', 'k%d' % i)), 'xml': (XML, '?' + STR[i], 'x%d' % i), 'xlink': (XLINK, '?' + STR[i], 'l%d' % i), 'foreign': (OTHER, '?' + STR[i], 'f'), 'unknown': (None, 'foo', 'u'), 'foreign-unknown': (OTHER, 'foo', 'u'),
                'foreign-id': (OTHER, 'id', 'no'), 'foreign-style': (OTHER, 'style', ('sym', 'fsty')), 'id': (None, 'id', 'i%d' % i), 'class': (None, 'class', 'c'), 'empty': (None, '?' + STR[i], ''), 'empty-ns': ('', '?' + STR[i], 'e')}[k]
    STR = [a for a in ('FontFamily', 'Title', 'Media', 'Lang', 'Cursor', 'Target') if a in E.aids]
    AK = ('known', 'xml', 'xlink', 'foreign', 'unknown', 'foreign-unknown', 'foreign-id', 'foreign-style', 'id', 'class', 'empty', 'empty-ns')
    def alists(n):
        for m in range(1, n + 1):
            for t in itertools.product(AK, repeat=m):
                if t.count('id') > 1 or t.count('class') > 1 or t.count('unknown') > 1 or t.count('foreign-unknown') > 1 or t.count('foreign-id') > 1 or t.count('foreign-style') > 1: continue
                yield t
    def alist(c, ls):
        X = XDoc(); s = X.elem(0, 'svg'); X.decls(('sym', 'fsty'), [('?FontFamily', ('str', 'css')), ('?Cursor', ('str', 'css'))])
        for j, t in enumerate(ls): X.elem(s, 'rect', [akind(k, i) for i, k in enumerate(t)])
        run(c, 'attribute lists %s ...' % '+'.join(ls[0]), X, opts=dict(other={('sym', 'k%d' % i) for i in range(6)}, sig_after=600), key='attribute-list')
    ls = list(alists(3)) + (list(t for t in alists(4) if len(t) == 4) if ctx.tier == 'thorough' else []) + [('known', 'foreign', 'unknown', 'xml', 'known', 'xlink'), ('foreign', 'foreign-unknown', 'class', 'id', 'empty', 'known')]
    par.each(ctx, [ls[i:i + 12] for i in range(0, len(ls), 12)], alist)
    # no limits: many attributes, many children, deep nesting
    def large(c, k):
        X = XDoc(); s = X.elem(0, 'svg')
        if k == 'attributes': X.elem(s, 'rect', [(None, '?' + a, 'v') for a in E.aids if a not in ('Style', 'Class', 'Id') and G.get(a, ('String',))[0] == 'String'][:28] + [(OTHER, 'x%d' % i, 'v') for i in range(110)] + [(None, 'id', 'last')])
        elif k == 'children':
            for i in range(140): item(X, s, ('el', 'text', 'comment', 'el', 'foreign')[i % 5])
        elif k == 'depth':
            for i in range(45): X.text(s, A); s = X.elem(s, 'g')
        elif k == 'styles':
            for i in range(30): X.elem(s, 'style', [('type', 'text/other')])
            X.elem(s, 'rect')
        run(c, 'large documents: ' + k, X, opts=dict(other=OTH, sig_after=600), key='large')
    par.each(ctx, ['attributes', 'children', 'depth', 'styles'], large, 1)
    # document level
    def top(c, job):
        pre, rootk, post_ = job
        X = XDoc()
        for k in pre: item(X, 0, k)
        if rootk == 'svg': r = X.elem(0, 'svg', [('?FontFamily', ('sym', 'ff'))])
        elif rootk == 'rect': r = X.elem(0, 'rect')
        elif rootk == 'g': r = X.elem(0, 'g')
        elif rootk == 'style': r = X.elem(0, 'style'); 
        elif rootk == 'unknown': r = X.elem(0, '?unknown')
        elif rootk == 'foreign': r = X.elem(0, 'svg', ns=OTHER)
        elif rootk == 'nons': r = X.elem(0, 'svg', ns=None)
        X.elem(r, 'svg'); X.elem(r, 'rect')
        for k in post_: item(X, 0, k)
        run(c, 'document %s' % '+'.join(pre + ('<%s>' % rootk,) + post_), X, err=None if rootk == 'svg' else ('NoSvgElement',), opts=dict(other=OTH), key='document:%s' % rootk)
    misc = [(), ('comment',), ('pi',), ('comment', 'pi'), ('comment', 'comment')]
    par.each(ctx, [(a, r, b) for r in ('svg', 'rect', 'g', 'style', 'unknown', 'foreign', 'nons') for a in misc for b in misc], top)
    # XML errors are passed on
    X = XDoc(); X.elem(0, 'svg')
    xe = [k for k in perr if k not in ('NoSvgElement', 'UnsupportedCSS', 'DomError')]
    run(ctx, 'a document that is not well-formed', X, err=tuple(['ok'] + [k for k in perr if 'Xml' in k]), cfg=dict(xmlerr=True), key='xml-error')

def C07(p, ctx):
    ctx.rule = ('Every abstract path of Document::from_str over the input families of the other parser checks (attribute values of every type, style sources, references, selectors, text, document structure) must end in a return, never in a panic: '
                'unwrap/expect, indexing, slicing, arithmetic overflow, RefCell borrow conflicts, explicit panics and unreachable code of svgdom.')
    import parser_checks, text_checks
    for n, f in (('C11', parser_checks.C11), ('C12', parser_checks.C12), ('C14', parser_checks.C14), ('C22', parser_checks.C22), ('C23', C23), ('C21', text_checks.C21), ('C13', parser_checks.C13)):
        c = Ctx(ctx.pid, 'panic' if ctx.tier != 'thorough' else 'thorough')
        rule = ctx.rule
        f(p, c)
        pan = [(k, t) for k, t in c.viol if k.startswith('panic')]
        for k, t in pan: ctx.violated('family %s: %s' % (n, k), 'panic:' + k.split(':', 1)[-1], t)
        for k, v in c.obl.items():
            if v == 'undecided': ctx.undecided('no panic: ' + k, 'undecided')
            else: ctx.ok('no panic: ' + k)
        ctx.functions |= c.functions; ctx.steps += c.steps; ctx.states += c.states; ctx.calls += c.calls; ctx.opaque |= c.opaque; ctx.paths += c.paths
        ctx.und += c.und[:20]; ctx.samples += c.samples[:2]
