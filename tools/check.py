#!/usr/bin/env python3
"""Decides one property:  check.py C01 [quick|thorough]     (seed: VERIF_SEED)
Exit 0: the property held on everything explored.  Exit 1: violated.  Exit 2: the check could not be carried out."""
import json, os, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

LIMIT = {'quick': 300, 'thorough': 840}


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.counts, self.found, self.samples, self.notes = {}, [], [], {}
        self.scratch = tempfile.mkdtemp(prefix='vh-%s-' % pid)
        self.known = [k for k in known_findings() if k.get('property') == pid]

    def add(self, **kw):
        for k, v in kw.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def late(self, frac):
        return time.time() - self.t0 > frac * LIMIT[self.tier]

    def count_runs(self, traces):
        for t in traces:
            n = sum(1 for o in t['ops'] for e in o['lg'] if e[0] == 'b')
            self.add(bodies=n)
            if len(self.samples) < 3 and n >= 3 and len(json.dumps(t)) < 6000:
                self.samples.append({'codes': t['codes'], 'history': [[o['op'], o['out']] for o in t['ops']]})

    def violation(self, v):
        for k in self.known:
            if k.get('input') is not None and k['input'] == v.get('key'):
                k['seen'] = True
                return
        self.found.append(v)


def known_findings():
    out = []
    f = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('known: '):
                out.append(json.loads(l[len('known: '):]))
    return out


def run(pid, tier, seed):
    ctx = Ctx(pid, tier, seed)
    try:
        ctx.binary = build_harness()
        import engine_props, other_props
        if pid in other_props.PROPS:
            other_props.PROPS[pid](ctx)
        else:
            engine_props.engine_check(pid, ctx)
        return finish(ctx)
    except Broken as e:
        print('check of %s could not be carried out: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


def finish(ctx):
    rep = os.path.join(BUILD, 'replays')
    os.makedirs(rep, exist_ok=True)
    for f in os.listdir(rep):
        if f.startswith(ctx.pid + '-'):
            os.unlink(os.path.join(rep, f))
    cov = dict(ctx.counts)
    cov['traces_validated_against_impl'] = cov.pop('traces', 0)
    for k in ('states', 'transitions'):
        cov.setdefault(k, 0)
    cov.update(ctx.notes)
    cov['samples'] = ctx.samples or ['(none)']
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'model_checking', 'coverage': cov,
          'wall_s': round(time.time() - ctx.t0, 1), 'violations': len(ctx.found)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in ctx.known:
        print('KNOWN-FINDING: property=%s %s' % (ctx.pid, k['what']))
    for i, v in enumerate(ctx.found[:5]):
        p = os.path.join(rep, '%s-%d.json' % (ctx.pid, i))
        with open(p, 'w') as f:
            json.dump(v, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (ctx.pid, p))
        print('  ' + str(v.get('what'))[:500])
    print('%s %s: %d violations in %.1f s; %s' % (ctx.pid, ctx.tier, len(ctx.found), time.time() - ctx.t0,
                                                  {k: v for k, v in cov.items() if isinstance(v, int)}))
    return 1 if ctx.found else 0


if __name__ == '__main__':
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(run(pid, tier, int(os.environ.get('VERIF_SEED', '1'))))
