"""Splitting independent analyses over the cores (fork; the loaded program is shared)."""
import os, multiprocessing as mp
from report import Ctx

_job = None
def _call(i):
    fn, items, pid, tier = _job
    c = Ctx(pid, tier)
    try:
        fn(c, items[i])
    except Exception as e:
        if os.environ.get('DEBUG'): raise
        c.undecided('analysis of %s' % (str(items[i])[:80],), '%s: %s' % (type(e).__name__, e))
    return dict(obl=c.obl, viol=c.viol, und=c.und, functions=c.functions, steps=c.steps, states=c.states, calls=c.calls, opaque=c.opaque, paths=c.paths, samples=c.samples[:1])
def each(ctx, items, fn, chunk=4):
    """fn(ctx, item) for every item, results merged into ctx"""
    global _job
    items = list(items)
    _job = (fn, items, ctx.pid, ctx.tier)
    n = min(8, os.cpu_count() or 1)
    if n <= 1 or len(items) < 3 or os.environ.get('SERIAL'):
        rs = map(_call, range(len(items)))
    else:
        pool = mp.get_context('fork').Pool(n)
        rs = pool.map(_call, range(len(items)), chunksize=chunk)
        pool.close(); pool.join()
    for r in rs:
        for k, v in r['obl'].items():
            o = ctx.obl.get(k)
            if v == 'violated' or o is None or (v == 'undecided' and o == 'ok'): ctx.obl[k] = v
        for k, t in r['viol']:
            if k not in [x for x, _ in ctx.viol]: ctx.viol.append((k, t))
        ctx.und += r['und']; ctx.functions |= r['functions']; ctx.steps += r['steps']; ctx.states += r['states']
        ctx.calls += r['calls']; ctx.opaque |= r['opaque']; ctx.paths += r['paths']
        for s in r['samples']:
            if len(ctx.samples) < 12: ctx.samples.append(s)
