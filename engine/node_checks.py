"""C20: the accessors of a node read and write exactly the field they name."""
from dom_checks import *

def C20(p, ctx):
    ctx.rule = ('Abstract interpretation of the Node accessors over nodes of every type with symbolic id, text and tag name inside an abstract document: node_type/is_*, id/has_id/set_id, text/text_mut/set_text, tag_name/tag_id/has_tag_name/set_tag_name, has_parent, is_detached. '
                'Readers return the stored field and change nothing; writers store exactly the given value in that field of that node and leave every other field of every node alone; an empty tag name is refused without a change.')
    D = Dom(p); L = D.L
    T = {k: ('adt', i, ()) for k, i in L.nt.items()}
    def build(kind, tag=None, key='auto', place='svg', users=0):
        B = D.new()
        e = kind == 'Element'
        B.node('ROOT', 'Root', kids=['SVG'] + (['N'] if place == 'root' else []))
        B.node('SVG', kids=['A'] + (['N'] if place == 'svg' else []) + ['B'], tag=('adt', L.qn['Id'], (('adt', L.eid['Svg'], ()),)))
        B.node('A', id=('sym', 'idA')); B.node('B', attrs=[seg('attrs', 'B', idn(D, 'Href')), L.attr(idn(D, 'Href'), B.link('Link', 'A'))], id=('sym', 'idB'))
        B.node('N', kind, attrs=[L.attr(idn(D, 'Fill'), B.link('Paint', 'A')), seg('attrs', 'N', idn(D, 'Fill'))] if e else [], id=('sym', 'idN') if e else None, tag=tag, text=('sym', 'textN') if not e else None, key=key)
        if users: B.n['B']['attrs'] = [L.attr(idn(D, nm), B.link(k2, 'N')) for nm, k2 in (('Href', 'Link'), ('Fill', 'Paint'), ('Mask', 'FuncLink'))[:users]]
        if place in ('unattached', 'removed'): B.node('F', kids=['N'], tag=('adt', L.qn['Name'], (('str', 'x'),)), key='auto' if place == 'unattached' else None)
        return B.state()
    def go(label, root, args, mk, want, changes=None, may=None):
        """want: value or None (unit); changes: {(node, field): value}; may: predicate on a panicking path"""
        for i, c in enumerate(run_case(D, ctx, label, root, [mref('N')] + list(args), mk, op=root)):
            nm = '%s #%d' % (label, i); key = root[2:] if not label.startswith(root) else root
            if c.o.kind == 'stuck': ctx.undecided(nm, c.o.msg); continue
            if c.o.state.taint: ctx.undecided(nm, c.o.state.taint); continue
            if c.o.kind == 'panic':
                c.post = D.snap(c.o.state); d = unchanged(D, c)
                if may is not None and may(c): ctx.judge(nm, not d, key + ':refused-changes', '%s: refuses the value but has changed %s' % (label, d[:3]))
                else: ctx.judge(nm, False, key + ':panic', '%s panics: %s at %s' % (label, c.o.msg, c.o.site))
                continue
            why = []
            if may is not None and may(c): why.append('an empty name is accepted')
            v = c.o.value
            w = want(c) if callable(want) else want
            if w is not None:
                if v[0] in ('t', 'sym'): v = c.I.simp(c.o.state, v)
                if v != w: why.append('gives %s, expected %s' % (str(v)[:120], str(w)[:120]))
            ch = changes or {}
            d = unchanged(D, c, set(ch))
            if d: why.append('changes %s' % d[:3])
            for (n, f), x in ch.items():
                if c.post[n][f] != x: why.append('%s of %s is %s afterwards, expected %s' % (f, n, str(c.post[n][f])[:100], str(x)[:100]))
            left = [n for n, e in c.post.items() if e['bor']]
            if left: why.append('%s is still borrowed at return' % left[0])
            ctx.judge(nm, not why, key, '%s: %s' % (label, '; '.join(why[:3])))
    for k in L.nt:
        if k == 'Root': continue
        mk = lambda: build(k)
        go('node_type of %s' % k, 'n_node_type', [], mk, T[k])
        for r, t in (('n_is_root', 'Root'), ('n_is_element', 'Element'), ('n_is_text', 'Text'), ('n_is_comment', 'Comment')): go('%s of %s' % (r[2:], k), r, [], mk, boolv(k == t))
        go('text of %s' % k, 'n_text', [], mk, ('str', '') if k == 'Element' else ('sym', 'textN'))
        go('id of %s' % k, 'n_id', [], mk, ('sym', 'idN') if k == 'Element' else ('str', ''))
        def hid(c):
            e = cond(c.I, c.o.state, models.isempty(c.I, c.o.state, ('sym', 'idN')))
            return boolv(not e) if e is not None else c.I.simp(c.o.state, ('t', 'Not', ('t', 'isempty', ('sym', 'idN'))))
        if k == 'Element': go('has_id of an element', 'n_has_id', [], mk, hid)
        else: go('has_id of %s' % k, 'n_has_id', [], mk, FALSE)
        go('is_detached of %s' % k, 't_is_detached', [], mk, FALSE)
        go('is_detached of removed %s' % k, 't_is_detached', [], lambda: build(k, key=None, place='none'), TRUE)
        go('is_detached of unattached %s' % k, 't_is_detached', [], lambda: build(k, place='none'), FALSE)
        if k == 'Element':
            for u in (1, 3):
                for place in ('svg', 'root', 'none', 'unattached'):
                    mk2 = lambda: build(k, place=place, users=u)
                    lab = 'a %s element with %d users' % ({'svg': 'nested', 'root': 'top-level', 'none': 'lone', 'unattached': 'nested unattached'}[place], u)
                    go('is_detached of ' + lab, 't_is_detached', [], mk2, FALSE)
                    go('has_parent of ' + lab, 't_has_parent', [], mk2, boolv(place in ('svg', 'unattached')))
                    go('has_id of ' + lab, 'n_has_id', [], mk2, hid)
                    go('id of ' + lab, 'n_id', [], mk2, ('sym', 'idN'))
                    go('set_id of ' + lab, 'n_set_id', [('sym', 'new')], mk2, None, {('N', 'id'): ('sym', 'new')})
                    go('set_tag_name of ' + lab, 'n_set_tag_name', [('adt', L.qrn['Id'], (('sym', 'newid'),))], mk2, None, {('N', 'tag'): ('adt', L.qn['Id'], (('sym', 'newid'),))})
        go('has_parent of %s in an element' % k, 't_has_parent', [], mk, TRUE)
        go('has_parent of %s in the root' % k, 't_has_parent', [], lambda: build(k, place='root'), FALSE)
        go('has_parent of %s in an unattached element' % k, 't_has_parent', [], lambda: build(k, place='unattached'), TRUE)
        go('has_parent of %s in a removed element' % k, 't_has_parent', [], lambda: build(k, place='removed', key=None), TRUE)
        go('has_parent of unattached %s' % k, 't_has_parent', [], lambda: build(k, place='none'), FALSE)
        go('text_mut of %s' % k, 'n_text_mut', [('sym', 'new')], mk, None, {('N', 'text'): ('sym', 'new')})
        go('text_mut().push_str of %s' % k, 'n_text_push', [('sym', 'more')], mk, None, {('N', 'text'): models.concat(('str', '') if k == 'Element' else ('sym', 'textN'), ('sym', 'more'))})
        if k != 'Element': go('set_text of %s' % k, 'n_set_text', [('sym', 'new')], mk, None, {('N', 'text'): ('sym', 'new')})
    go('set_id', 'n_set_id', [('sym', 'new')], lambda: build('Element'), None, {('N', 'id'): ('sym', 'new')})
    for lab, tag in (('an SVG', ('adt', L.qn['Id'], (('sym', 'tagid'),))), ('a non-SVG', ('adt', L.qn['Name'], (('sym', 'tagname'),)))):
        mk = lambda: build('Element', tag=tag)
        go('tag_name of %s element' % lab, 'n_tag_name', [], mk, tag)
        go('tag_id of %s element' % lab, 'n_tag_id', [], mk, some(tag[2][0]) if lab == 'an SVG' else NONE)
        for l2, new in (('an id', ('adt', L.qrn['Id'], (('sym', 'newid'),))), ('a name', ('adt', L.qrn['Name'], (('sym', 'newname'),)))):
            go('set_tag_name %s on %s element' % (l2, lab), 'n_set_tag_name', [new], mk, None, {('N', 'tag'): ('adt', L.qn['Id' if l2 == 'an id' else 'Name'], new[2])},
               (lambda c: cond(c.I, c.o.state, models.isempty(c.I, c.o.state, ('sym', 'newname'))) is True) if l2 == 'a name' else None)
            def same(c):
                if (l2 == 'an id') != (lab == 'an SVG'): return FALSE
                if l2 == 'a name': r = models.streq(c.I, c.o.state, ('sym', 'tagname'), ('sym', 'newname'))
                else: r = c.I.simp(c.o.state, ('t', 'Eq') + tuple(sorted((('t', 'discr', ('sym', 'tagid'), L.eid_ty), ('t', 'discr', ('sym', 'newid'), L.eid_ty)), key=repr)))
                return r if r[0] == 'int' else c.o.value
            go('has_tag_name %s on %s element' % (l2, lab), 'n_has_tag_name', [new], mk, same)
    words = ('a', 'A', ' a', 'a ', 'ab', 'a:b', 'b', 'svg', 'é', 'none')
    for a in words:
        for b in words:
            go('has_tag_name "%s" on <%s>' % (b, a), 'n_has_tag_name', [('adt', L.qrn['Name'], (('str', b),))], lambda: build('Element', tag=('adt', L.qn['Name'], (('str', a),))), boolv(a == b))
        go('tag_name of <%s>' % a, 'n_tag_name', [], lambda: build('Element', tag=strn(D, a)), strn(D, a))
        go('tag_id of <%s> without an SVG name' % a, 'n_tag_id', [], lambda: build('Element', tag=strn(D, a)), NONE)
        go('set_tag_name "%s"' % a, 'n_set_tag_name', [('adt', L.qrn['Name'], (('str', a),))], lambda: build('Element', tag=strn(D, 'x')), None, {('N', 'tag'): strn(D, a)})
