"""Finding svgdom's data layout in the type-checked program, and building abstract nodes."""
from interp import *
import models

class Layout:
    def __init__(self, p):
        self.p = p
        self.node_ty = p.adt('Node')[0]
        rc = p.types[self.node_ty]['v'][0]['f'][0][1]
        self.tn_ty = p.types[p.types[rc]['a'][0]]['a'][0]            # tree node data
        self.tfields = p.types[self.tn_ty]['v'][0]['f']
        nd = p.adt('NodeData')
        self.nd_ty = [t for t in nd if t != self.tn_ty and any(ty == t for _, ty in self.tfields)][0]
        self.data_i = [i for i, (n, ty) in enumerate(self.tfields) if ty == self.nd_ty][0]
        self.fields = p.types[self.nd_ty]['v'][0]['f']
        def name(ty): return p.types[ty].get('n', '').split('::')[-1]
        self.f = {}
        strs = []
        for i, (n, ty) in enumerate(self.fields):
            t = name(ty)
            if t == 'NodeType': self.f['type'] = i; self.nt_ty = ty
            elif t == 'QName': self.f['tag'] = i; self.tag_ty = ty
            elif t == 'Attributes': self.f['attrs'] = i; self.attrs_ty = ty
            elif t == 'Vec': self.f['linked'] = i
            elif t == 'Option': self.f['key'] = i
            elif t == 'String': strs.append(i)
        for role, root in (('id', 'n_id'), ('text', 'n_text')):
            st = State()
            vals = [('str', 'S%d' % i) if i in strs else ('sym', 'x%d' % i) for i in range(len(self.fields))]
            st.heap['N'] = {'val': self.wrap(('adt', 0, tuple(vals))), 'bor': 0}
            I = Interp(p, models.lookup())
            r = {o.value[1] for o in I.run(p.roots[root], [ref(handle('N'))], st) if o.kind == 'ret' and o.value[0] == 'str'}
            if len(r) != 1: raise Stop('field behind %s not found' % root)
            self.f[role] = int(r.pop()[1:])
        self.av_ty = p.adt('AttributeValue')[0]
        self.attr_ty = p.adt('Attribute')[0]
        self.attr_f = {n: i for i, (n, ty) in enumerate(p.types[self.attr_ty]['v'][0]['f'])}    # public field names
        self.attrname_ty = p.types[self.attr_ty]['v'][0]['f'][self.attr_f['name']][1]
        self.eid_ty = p.adt('ElementId')[0]
        self.aid_ty = p.adt('AttributeId')[0]
        self.av = {v['n']: i for i, v in enumerate(p.types[self.av_ty]['v'])}
        self.avn = {i: n for n, i in self.av.items()}
        self.aid = {v['n']: i for i, v in enumerate(p.types[self.aid_ty]['v'])}
        self.eid = {v['n']: i for i, v in enumerate(p.types[self.eid_ty]['v'])}
        self.nt = {v['n']: i for i, v in enumerate(p.types[self.nt_ty]['v'])}
        q = [t for t in p.adt('QName')]
        self.qn = {v['n']: i for i, v in enumerate(p.types[q[0]]['v'])}
        self.qtys = q
        qr = p.adt('QNameRef')
        self.qrn = {v['n']: i for i, v in enumerate(p.types[qr[0]]['v'])}
    def wrap(self, nd):
        """tree node value around node data, no links"""
        return ('adt', 0, tuple(nd if i == self.data_i else NONE for i in range(len(self.tfields))))
    def data(self, **kw):
        fs = [None] * len(self.fields)
        d = dict(type=('adt', self.nt['Element'], ()), tag=('adt', self.qn['Name'], (('str', 'x'),)), attrs=('adt', 0, (('vec', ()),)),
                 linked=('vec', ()), key=('adt', 1, (('sym', 'key'),)), id=('str', ''), text=('str', ''))
        d.update(kw)
        for k, i in self.f.items(): fs[i] = d[k]
        return ('adt', 0, tuple(x if x is not None else ('sym', 'field%d' % i) for i, x in enumerate(fs)))
    def cell(self, **kw):
        return {'val': self.wrap(self.data(**kw)), 'bor': 0}
    def get(self, st, n, role):
        v = st.heap[n]['val'][2][self.data_i]
        return v[2][self.f[role]]
    def attr(self, name, value):
        fs = [None, None]
        fs[self.attr_f['name']] = name; fs[self.attr_f['value']] = value
        return ('adt', 0, tuple(fs))
    def val(self, variant, *fields): return ('adt', self.av[variant], tuple(fields))
    def id_name(self, i): return ('adt', self.qn['Id'], (('adt', i, ()),))
    def str_name(self, s): return ('adt', self.qn['Name'], (s,))
    def id_nameref(self, i): return ('adt', self.qrn['Id'], (('adt', i, ()),))
    def str_nameref(self, s): return ('adt', self.qrn['Name'], (s,))

def handle(n): return ('adt', 0, (('rc', n),))
def unhandle(v):
    if v[0] == 'adt' and len(v[2]) == 1 and v[2][0][0] == 'rc': return v[2][0][1]
    return None
def ref(v): return ('ref', ('C', v), ())
