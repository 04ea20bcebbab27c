"""The attribute typing table (oracle): which AttributeValue every SVG attribute is parsed into.
Values are described over the results of svgtypes' parsers on the trimmed attribute value."""
from interp import *
import models

G = {}
def g(kind, ids, **kw):
    for i in ids.split(): G[i] = (kind, kw)
NONE_, INH, CUR = dict(none='None'), dict(inherit='Inherit'), dict(currentColor='CurrentColor')
def kept(*w): return {x: '@' for x in w}          # kept as a string
g('Id', 'Id'); g('Ignore', 'Style Class'); g('Unicode', 'Unicode')
g('IRI', 'Href')
g('XY', 'X Y Dx Dy')
g('Length', 'X1 Y1 X2 Y2 R Rx Ry Cx Cy Fx Fy RefX RefY Width Height MarkerWidth MarkerHeight StartOffset')
g('Offset', 'Offset')
g('Length', 'StrokeDashoffset StrokeWidth', **INH)
g('Number', 'StrokeMiterlimit', **INH)
g('Clamp', 'Opacity FillOpacity FloodOpacity StrokeOpacity StopOpacity', **INH)
g('Clamp', 'K1 K2 K3 K4')
g('LengthList', 'StrokeDasharray', **dict(NONE_, **INH))
g('FillX', 'Fill'); g('Paint', 'Stroke')
g('FuncIRI', 'ClipPath Filter Marker MarkerEnd MarkerMid MarkerStart Mask', **dict(NONE_, **INH))
g('Color', 'Color', **INH)
g('Color', 'LightingColor FloodColor StopColor', **dict(INH, **CUR))
g('NumberList', 'StdDeviation BaseFrequency Rotate')
g('Points', 'Points'); g('Path', 'D')
g('Transform', 'Transform GradientTransform PatternTransform')
g('LenOrStr', 'FontSize', **INH)
g('Number', 'FontSizeAdjust', **dict(NONE_, **INH))
g('String', 'Display PointerEvents TextDecoration', **dict(NONE_, **INH))
g('String', 'ClipRule ColorInterpolation ColorInterpolationFilters ColorProfile ColorRendering Direction DominantBaseline EnableBackground FillRule FontFamily FontStretch FontStyle FontVariant FontWeight ImageRendering Kerning Overflow ShapeRendering StrokeLinecap StrokeLinejoin TextAnchor TextRendering UnicodeBidi Visibility WritingMode', **INH)
g('Length', 'LetterSpacing WordSpacing', **dict(INH, **kept('normal')))
g('Length', 'BaselineShift', **dict(INH, **kept('baseline', 'sub', 'super')))
g('Angle', 'Orient', **kept('auto'))
g('Angle', 'GlyphOrientationHorizontal', **INH)
g('Angle', 'GlyphOrientationVertical', **dict(INH, **kept('auto')))
g('ViewBox', 'ViewBox'); g('AspectRatio', 'PreserveAspectRatio')
TEXTXY = ('AltGlyph', 'Text', 'Tref', 'Tspan')
ANIMFILL = ('Set', 'Animate', 'AnimateColor', 'AnimateMotion', 'AnimateTransform')
LINKATTRS = ('Href', 'Fill', 'Stroke', 'ClipPath', 'Filter', 'Marker', 'MarkerEnd', 'MarkerMid', 'MarkerStart', 'Mask')

KW = ('none', 'inherit', 'currentColor', 'normal', 'baseline', 'sub', 'super', 'auto')

class Ask:
    """answers questions about unknown inputs from the facts of a path, enumerating the answers the path leaves open"""
    def __init__(self, facts, preset):
        self.facts = facts; self.preset = preset; self.used = []; self.open = False
    def pick(self, key, dom):
        for k, v in self.used:
            if k == key: return v
        i = len(self.used)
        v = self.preset[i] if i < len(self.preset) else dom[0]
        self.used.append((key, v)); self.doms = getattr(self, 'doms', []) + [dom]
        if len(dom) > 1: self.open = True
        return v
    def discr(self, T, n):
        dom = list(range(n))
        for k, f in self.facts.items():
            if k[0] == 't' and k[1] == 'discr' and k[2] == T:
                dom = [f[1]] if f[0] == '=' else [d for d in dom if d not in f[1]]
        return self.pick(('discr', T), dom)
    def flag(self, t):
        f = self.facts.get(t)
        dom = [0, 1]
        if f is not None: dom = [f[1]] if f[0] == '=' else [d for d in dom if d not in f[1]]
        return self.pick(t, dom)
def alternatives(facts, fn):
    """[(open, answers, result)] for every way to complete the facts"""
    out = []; todo = [[]]
    while todo:
        pre = todo.pop()
        a = Ask(facts, pre); r = fn(a)
        out.append((a.open, a.used, r))
        for i in range(len(pre), len(a.used)):
            for v in a.doms[i][1:]: todo.append([x[1] for x in a.used[:i]] + [v])
    return out

class Spec:
    def __init__(self, p, L):
        self.p = p; self.L = L
        self.path = {}
        for i in p.insts:
            if i.crate != 'svgtypes': continue
            if i.path.endswith('::from_str'):
                for t in ('Length', 'LengthList', 'NumberList', 'Points', 'Transform', 'Color', 'Angle', 'ViewBox', 'AspectRatio'):
                    if '::%s as ' % t in i.path or 'for svgdom::%s>' % t in i.path or 'for svgtypes::%s>' % t in i.path: self.path[t] = i.path
                if 'paint::Paint' in i.path: self.path['Paint'] = i.path
            if i.path.endswith('>::from') and 'Stream' in i.path: self.path['Stream'] = i.path
            if i.path.endswith('>::from') and 'PathParser' in i.path: self.path['PathParser'] = i.path
    def call(self, t, V): return ('t', 'call', self.path.get(t, '?' + t), V)
    def iskw(self, V): return V[0] == 'str' and V[1] in KW
    def parse(self, ask, t, V):
        """payload of svgtypes' parser t on V, or None when it rejects V"""
        if self.iskw(V):
            if t == 'Paint' and V[1] in ('none', 'inherit', 'currentColor'): return ('adt', ('none', 'inherit', 'currentColor').index(V[1]), ())
            if t == 'AspectRatio' and V[1] == 'none': return ('t', 'aspect-none')
            return None
        T = self.call(t, V)
        return ('t', '.', T, 0, 0) if ask.discr(T, 2) == 0 else None
    def stream(self, ask, m, V):
        if self.iskw(V): return None
        T = ('t', 'call', m, self.call('Stream', V))
        return ('t', '.', T, 0, 0) if ask.discr(T, 2) == 0 else None
    def number(self, ask, V):
        n = self.stream(ask, 'parse_number', V)
        if n is None: return None
        return n if ask.flag(('t', 'at_end', ('t', 'after', 'parse_number', self.call('Stream', V)))) else None
    def empty(self, ask, payload):
        return ask.flag_len(payload)
    def value(self, ask, aid, eid, v, css=False):
        """('set', value) | ('link', iri, fallback) | ('none',) no effect | ('clear',) | ('id', v)"""
        L = self.L
        kind, kw = G.get(aid, ('String', {}))
        V = v if kind in ('Unicode', 'Id') else models.trimmed('trim', v)
        if kind == 'Id' and not css: return ('id', v)
        if kind == 'Ignore' and not css: return ('none',)
        if kind == 'XY': kind = 'LengthList' if eid in TEXTXY else 'Length'
        if kind == 'FillX': kind = 'String' if eid in ANIMFILL else 'Paint'
        if V[0] == 'str' and V[1] in kw:
            k = kw[V[1]]
            return ('set', L.val('String', V)) if k == '@' else ('set', L.val(k))
        if kind in ('String', 'Unicode', 'Id', 'Ignore'): return ('set', L.val('String', V))
        if kind in ('Length', 'Points', 'Color', 'Angle', 'ViewBox', 'AspectRatio'):
            x = self.parse(ask, kind, V)
            return ('none',) if x is None else ('set', L.val(kind, x))
        if kind == 'Offset':
            x = self.parse(ask, 'Length', V)
            if x is None: return ('none',)
            u = ask.discr(('t', '.', x, 0, 1), 10)
            return ('set', L.val('Length', x)) if u in (0, 9) else ('none',)
        if kind in ('LengthList', 'NumberList'):
            x = self.parse(ask, kind, V)
            if x is None: return ('none',)
            return ('none',) if ask.isempty_list(x) else ('set', L.val(kind, x))
        if kind == 'Transform':
            x = self.parse(ask, kind, V)
            if x is None: return ('none',)
            return ('clear',) if ask.flag(('t', 'tsdefault', x)) else ('set', L.val(kind, x))
        if kind == 'LenOrStr':
            x = self.parse(ask, 'Length', V)
            return ('set', L.val('String', V)) if x is None else ('set', L.val('Length', x))
        if kind in ('Number', 'Clamp'):
            n = self.number(ask, V)
            return ('none',) if n is None else ('num' if kind == 'Clamp' else 'set', L.val('Number', n))
        if kind == 'Paint':
            x = self.parse(ask, 'Paint', V)
            if x is None: return ('none',)
            d = x[1] if x[0] == 'adt' else ask.discr(x, 5)
            if d < 3: return ('set', L.val(('None', 'Inherit', 'CurrentColor')[d]))
            if d == 3: return ('set', L.val('Color', ('t', '.', x, 3, 0)))
            return ('link', ('t', '.', x, 4, 0), ('t', '.', x, 4, 1))
        if kind == 'FuncIRI':
            x = self.stream(ask, 'parse_func_iri', V)
            return ('none',) if x is None else ('link', x, NONE)
        if kind == 'IRI':
            x = self.stream(ask, 'parse_iri', V)
            return ('set', L.val('String', V)) if x is None else ('link', x, NONE)
        if kind == 'Path':
            return ('path', self.call('PathParser', V))
        raise Stop('kind ' + kind)
    def fallback(self, ask, aid, iri, fb):
        """value of an attribute whose link has no target"""
        L = self.L
        f = None
        if fb != NONE:
            d = fb[1] if fb[0] == 'adt' else ask.discr(fb, 2)
            if d == 1:
                x = fb[2][0] if fb[0] == 'adt' else ('t', '.', fb, 1, 0)
                k = x[1] if x[0] == 'adt' else ask.discr(x, 3)
                return L.val(('None', 'CurrentColor')[k]) if k < 2 else L.val('Color', x[2][0] if x[0] == 'adt' else ('t', '.', x, 2, 0))
        if aid == 'Fill': return L.val('None')
        if aid == 'Href': return L.val('String', models.concat(('str', '#'), iri))
        return L.val('String', models.concat(('str', 'url(#'), iri, ('str', ')')))

def isempty_list(self, x):
    """emptiness of a parsed list from the facts about its length"""
    dom = [0, 1]
    for k, f in self.facts.items():
        if k[0] == 't' and k[1] == 'len' and k[2] == ('vec', (('seg', ('items', x)),)):
            if f[0] == '=': dom = [1 if f[1] == 0 else 0]
            elif 0 in f[1]: dom = [0]
    return self.pick(('empty', x), dom)
Ask.isempty_list = isempty_list

def norm(v):
    """eta-reduction: a record rebuilt from all fields of one unknown record is that record"""
    if v[0] == 'adt':
        fs = tuple(norm(x) for x in v[2])
        if fs and all(x[0] == 't' and x[1] == '.' and x[3] == v[1] and x[4] == i for i, x in enumerate(fs)) and len({x[2] for x in fs}) == 1: return fs[0][2]
        return ('adt', v[1], fs)
    if v[0] in ('vec', 't'): return tuple(norm(x) if isinstance(x, tuple) else x for x in v) if v[0] == 't' else ('vec', tuple(norm(x) for x in v[1]))
    return v
