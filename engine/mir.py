"""Loads the exported MIR."""
import json, collections

class Body:
    __slots__ = ('argc', 'spread', 'locals', 'names', 'span', 'blocks', 'joins', 'heads')
    def __init__(self, b):
        self.argc = b['argc']; self.spread = b['spread']; self.locals = b['locals']
        self.names = {l: n for l, n in b['names']}
        self.span = b['span']; self.blocks = b['blocks']
        preds = collections.Counter()
        for blk in self.blocks:
            for t in succs(blk[1]):
                preds[t] += 1
        self.joins = {t for t, c in preds.items() if c > 1}
        # loop heads: targets of DFS back edges
        heads = set(); color = {}
        st = [(0, iter(succs(self.blocks[0][1])))]; color[0] = 1
        while st:
            n, it = st[-1]
            for t in it:
                c = color.get(t)
                if c is None:
                    color[t] = 1
                    st.append((t, iter(succs(self.blocks[t][1]))))
                    break
                if c == 1:
                    heads.add(t)
            else:
                color[n] = 2
                st.pop()
        self.heads = heads

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'sw': return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[4]]
    return []

class Inst:
    __slots__ = ('idx', 'name', 'path', 'crate', 'kind', 'intr', 'clo', 'trait', 'item', 'args', 'out', 'ins', 'body', 'ctor', 'fmt')
    def __init__(self, idx, d):
        self.idx = idx
        self.name = d['name']; self.path = d['path']; self.crate = d['crate']; self.kind = d['kind']
        self.intr = d['intr']; self.clo = d['clo']; self.trait = d['trait']; self.item = d['item']
        self.args = d['args']; self.out = d.get('out'); self.ins = d.get('in', []); self.ctor = d.get('ctor'); self.fmt = d.get('fmt')
        self.body = Body(d['body']) if 'body' in d else None
    def __repr__(self):
        return 'Inst(%s)' % self.name

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.statics = d['statics']
        self.insts = [Inst(i, x) for i, x in enumerate(d['insts'])]
        self.roots = {n.split('::')[-1]: self.insts[i] for n, i in d['roots']}
    def ty(self, i):
        return self.types[i]
    def variant(self, ty, v):
        return self.types[ty]['v'][v]
    def variant_index(self, ty, name):
        for i, v in enumerate(self.types[ty]['v']):
            if v['n'] == name:
                return i
        raise KeyError(name)
    def find_type(self, pred):
        for i, t in enumerate(self.types):
            if pred(t):
                return i
        return None
    def adt(self, suffix, krate='svgdom'):
        r = [i for i, t in enumerate(self.types) if t['k'] == 'adt' and t['c'] == krate and t['n'].split('::')[-1] == suffix]
        return r
