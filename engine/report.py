"""Obligations, verdicts, evidence."""
import os, json, time, re
from common import VERIF, source_stats

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier; self.t0 = time.time()
        self.obl = {}            # name -> 'ok' | 'violated' | 'undecided'
        self.viol = []           # (key, text)
        self.und = []
        self.functions = set(); self.steps = 0; self.states = 0; self.calls = 0; self.opaque = set(); self.paths = 0
        self.samples = []
        self.notes = {}
        self.rule = ''
        self.assume = []
    def ok(self, name, sample=None):
        if self.obl.get(name) in (None, 'ok'): self.obl[name] = 'ok'
        if sample and len(self.samples) < 12: self.samples.append(sample)
    def violated(self, name, key, text):
        """key: stable identification without line numbers"""
        self.obl[name] = 'violated'
        if key not in [k for k, _ in self.viol]:
            self.viol.append((key, text))
    def undecided(self, name, why):
        if self.obl.get(name) != 'violated': self.obl[name] = 'undecided'
        self.und.append((name, str(why)[:300]))
    def absorb(self, I):
        """account an interpreter run"""
        self.functions |= {I.p.insts[i].path for i in I.stats['functions']}
        self.steps += I.stats['steps']; self.states += I.stats['states']; self.calls += I.stats['calls']
        self.opaque |= I.stats['opaque']
    def judge(self, name, cond, key, text, tainted=None):
        if cond: self.ok(name)
        elif tainted: self.undecided(name, 'not precise: ' + ', '.join(sorted(map(str, tainted)))[:200])
        else: self.violated(name, key, text)

def known(pid):
    p = os.path.join(VERIF, 'known-findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3)))
    return r

def finish(ctx, level, seed):
    kn = dict(known(ctx.pid))
    new = [(k, t) for k, t in ctx.viol if k not in kn]
    for k, t in ctx.viol:
        if k in kn: print('KNOWN-FINDING: property=%s %s' % (ctx.pid, kn[k]))
    cnt = {s: sum(1 for v in ctx.obl.values() if v == s) for s in ('ok', 'violated', 'undecided')}
    nf, nl, h = source_stats()
    svg = sorted(f for f in ctx.functions if f.startswith('svgdom') or f.startswith('<svgdom') or 'svgdom::' in f)
    cov = dict(explanation=ctx.rule, obligations=len(ctx.obl), discharged=cnt['ok'], undecided=cnt['undecided'],
               violated=cnt['violated'], functions_analysed=len(ctx.functions), svgdom_functions=svg,
               abstract_paths=ctx.paths, transfer_steps=ctx.steps, join_states=ctx.states, call_sites_resolved=ctx.calls,
               external_calls=sorted(ctx.opaque)[:60], undecided_detail=[list(x) for x in ctx.und[:40]],
               source=dict(files=nf, lines=nl, sha256_16=h), samples=ctx.samples,
               checker_cmd='bash check.sh %s' % ctx.pid,
               trusted_base=['rustc nightly MIR (exported by /verif/driver)', '/verif/engine abstract interpreter and std models', 'the rule tables in /verif/engine and /verif/spec'])
    cov.update(ctx.notes)
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=seed, level=level, coverage=cov, assumptions=ctx.assume,
              wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
    d = os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, ctx.pid + '.json'), 'w'), indent=1, default=str)
    rp = os.path.join('evidence', ctx.pid + '.violation.txt')
    full = os.path.join(VERIF, rp)
    if os.path.exists(full): os.remove(full)
    if new:
        with open(full, 'w') as f:
            for k, t in new: f.write('[%s]\n%s\n\n' % (k, t))
        for k, t in new[:20]:
            print('  %s: %s' % (k, t.splitlines()[0][:300]))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
        return 1
    print('OK property=%s obligations=%d discharged=%d undecided=%d functions=%d' % (ctx.pid, len(ctx.obl), cnt['ok'], cnt['undecided'], len(ctx.functions)))
    return 0
