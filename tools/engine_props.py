"""The checks of the properties about the engine: histories of archivist programs, enumerated by TLC
from spec/MCEngine.tla or generated at random, run in the real engine, judged by spec/Trace.tla."""
import json, os, random, re, shutil, tempfile
import gen
from vlib import *

# Generator profiles: class, weights, harness flags.
PROFILES = {
    'base':    ('Gen', {}, {'deep': 2}),
    'big':     ('Gen', dict(levels=6, cells=4, thunks=7, ops=(12, 24), o_touch=4), {'deep': 1}),
    'long':    ('Gen', dict(ops=(30, 50), o_set=14), {'deep': 1}),
    'wide':    ('Gen', dict(levels=3, cells=9, thunks=4, body=(12, 26), i_glob=16, i_force=14, i_fmap=6, ops=(6, 10)), {'deep': 1}),
    'nest':    ('Gen', dict(i_cell=8, i_thunk=10, i_memo=3, i_fmap=1, i_put=0, i_nthunk=0, i_eager=0, i_tmap=0, o_inner=6, o_touch=4), {'deep': 3}),
    'nestsmall': ('Gen', dict(levels=3, cells=2, thunks=3, i_cell=8, i_thunk=10, i_fmap=1, i_put=0, i_nthunk=0, i_eager=0, i_tmap=0, o_inner=8,
                              o_touch=3, o_kind=0, i_struct=0, i_sthunk=0, i_ns=0), {'deep': 2}),
    'proj':    ('Gen', dict(pairs=.8, i_fmap=14, i_fabs=3, i_force=6, i_cell=1, i_thunk=1, i_struct=0, o_fmap=2, o_fabs=1, o_set=12, o_touch=5, levels=3, cells=2), {'deep': 0}),
    'kind':    ('Gen', dict(o_kind=12, o_inner=5, i_glob=14, i_fmap=6, o_rethunk=5), {'deep': 1}),
    'cells':   ('Gen', dict(o_recell=10, o_newcell=3, o_nscell=4, o_kind=3, o_badset=4, i_tryset=4, o_scell=2, i_cell=8, i_fmap=4, o_inner=4, o_rethunk=1), {'deep': 2}),
    'rethunk': ('Gen', dict(o_rethunk=14, o_newcell=0, i_thunk=10, i_memo=4, o_nsthunk=2, o_inner=3), {'deep': 2}),
    'ns':      ('Gen', dict(i_ns=8, o_nscell=4, o_nsthunk=5, i_thunk=8, i_cell=5, o_inner=1), {'deep': 2}),
    'struct':  ('Gen', dict(i_sthunk=8, i_struct=5, o_scell=4, o_sthunk=6, i_cell=5, o_kind=0), {'deep': 2}),
    'structnp': ('Gen', dict(i_sthunk=8, i_struct=5, o_scell=4, o_sthunk=6, i_cell=5, o_kind=0), {'deep': 2, 'env': ['ADAPTON_NO_PURITY']}),
    'unnamed': ('Gen', dict(i_put=6, i_nthunk=7, i_tmap=7, i_eager=4, uvals=.4, o_fform=6, o_fmap=3, o_fabs=2, i_fmap=5), {'deep': 1}),
    'lists':   ('GenList', {}, {'deep': 3}),
    'deeplists': ('GenList', dict(length=(12, 30), ops=(5, 9)), {'deep': 0}),
    'fan':     ('GenFan', {}, {'deep': 0}),
    'cyc':     ('GenCyc', {}, {'deep': 0}),
    'deepcyc': ('GenDeepCyc', dict(ops=(6, 12)), {'deep': 0}),
    'deepchain': ('GenDeep', dict(ops=(6, 12)), {'deep': 0}),
    'once':    ('GenOnce', {}, {'deep': 0}),
    'turn':    ('GenTurn', dict(o_kind=0, o_inner=1, i_fcyc=0, o_fcyc=1), {'deep': 0}),
}

FAMS = dict(chain=1, branch=2, nested=3, realloc=4, projs=5, kinds=6, spaces=7, structs=8, unnamed=9, consts=10,
            deepen=11, lists=12, refusals=13, demands=14, cycle=15, undemanded=16, turning=17)
ALL = [f for f in FAMS if f != 'cycle']
MIX = {'base': 6, 'big': 2, 'long': 1, 'nest': 4, 'nestsmall': 3, 'proj': 4, 'kind': 2, 'ns': 2, 'struct': 2, 'structnp': 1, 'unnamed': 3, 'lists': 2, 'rethunk': 2, 'cells': 2, 'wide': 1, 'turn': 1, 'deeplists': .4, 'fan': .6, 'deepchain': .4}

# property -> what is judged, on which histories (weights), families, bound of the enumeration, number of random histories
PROPS = {
    'C01': dict(checks=['value'], mix=MIX, fams=ALL, n=2600),
    'C02': dict(checks=['extra', 'quiet'], mix=MIX, fams=ALL, n=2200),
    'C03': dict(checks=['demand'], mix=MIX, fams=ALL, n=2400),
    'C04': dict(checks=['graph'], mix=MIX, fams=ALL, n=1000, flags={'snap': True}),
    'C05': dict(checks=['value', 'extra', 'quiet'], mix={'cells': 5, 'kind': 3, 'ns': 2, 'nest': 1, 'struct': 1}, fams=['kinds', 'spaces', 'nested', 'refusals', 'structs'], n=1500, flags={'snap': True}),
    'C06': dict(checks=['value', 'extra', 'fresh', 'quiet'], mix={'rethunk': 6, 'nest': 2, 'kind': 1, 'ns': 1, 'lists': 1}, fams=['realloc', 'undemanded', 'consts', 'nested', 'kinds', 'deepen'], n=1400, flags={'snap': True}),
    'C07': dict(checks=['value', 'extra', 'fresh'], mix={'nest': 5, 'nestsmall': 6, 'ns': 1, 'rethunk': 2, 'lists': 2, 'struct': 1}, fams=['nested', 'deepen', 'lists', 'spaces', 'consts', 'undemanded'], n=1900),
    'C08': dict(checks=['value', 'extra', 'fresh'], mix={'proj': 10, 'unnamed': 2, 'kind': 2, 'cells': 1}, fams=['projs', 'demands', 'kinds', 'unnamed', 'chain'], n=2000),
    'C09': dict(checks=['value'], mix={'cyc': 3, 'once': 2, 'turn': 2, 'deepcyc': .4}, fams=['cycle', 'turning', 'demands'], n=3600),
    'C11': dict(checks=['value', 'fresh', 'demand'], mix={'ns': 6, 'nest': 1, 'lists': 1}, fams=['spaces'], bound=5, n=1900),
    'C12': dict(checks=['value', 'extra', 'fresh', 'quiet'], mix={'struct': 6, 'structnp': 4, 'lists': 1}, fams=['structs', 'consts', 'nested'], n=1400, flags={'snap': True}),
    'C22': dict(checks=['value', 'extra', 'fresh'], mix={'unnamed': 8, 'lists': 1}, fams=['unnamed', 'demands'], n=1900),
}


def enumerated(fams, bound, purity, scratch, cap, rng, export=True):
    """TLC explores every history of the families; returns requests for (at most cap of) them, and statistics."""
    cfg = ('CONSTANTS MaxLen = %d Fams = {%s} Purity = %s Export = %s\nINIT Init\nNEXT Next\nVIEW View\nINVARIANT Holds\nCHECK_DEADLOCK FALSE\n'
           % (bound, ', '.join(str(FAMS[f]) for f in fams), 'TRUE' if purity else 'FALSE', 'TRUE' if export else 'FALSE'))
    res = tlc('MCEngine', cfg, scratch)
    tlc_errors(res, 'MCEngine')
    prog, hs = {}, set()
    for l in res['out'].split('\n'):
        m = re.match(r'"?<<\\?"H\\?", (\d+), <<(.*)>>>>', l)
        if m:
            hs.add((int(m.group(1)),) + tuple(int(x) for x in m.group(2).split(',')))
            continue
        m = re.match(r'"FAM (\d+) (.*)"$', l)
        if m:
            prog[int(m.group(1))] = json.loads(m.group(2).replace('\\"', '"').replace('\\\\', '\\'))
    prefixes = {h[:-1] for h in hs}
    leaves = sorted(h for h in hs if h not in prefixes)
    if len(leaves) > cap:
        leaves = rng.sample(leaves, cap)
    reqs = []
    for h in leaves:
        f = prog[h[0]]
        reqs.append({'id': 'e%d' % len(reqs), 'codes': f['codes'], 'ops': f['init'] + [f['ops'][i - 1] for i in h[1:]],
                     'env': [] if purity else ['ADAPTON_NO_PURITY'], 'from': f['name']})
    return reqs, {'states': res['distinct'], 'transitions': res['generated'], 'histories': len(hs), 'programs': prog}


def walks(progs, n, rng, purity=True):
    """n long random histories of each of the enumerated programs: their few values meet again and again."""
    reqs = []
    for i in sorted(progs):
        f = progs[i]
        for _ in range(n):
            h, last = [], {}
            demands = [op for op in f['ops'] if op[0] in ('force', 'fmap', 'fabs', 'fcyc')]
            writes = [op for op in f['ops'] if op not in demands]
            while len(h) < rng.randint(10, 16):
                after = h and h[-1] in demands   # mostly one write, then one or two demands
                kind = writes if rng.random() < (.65 if after else .2) else demands
                op = rng.choice(kind)
                if op != last.get(id(kind)) or rng.random() < .15:
                    last[id(kind)] = op
                    h.append(op)
            reqs.append({'id': 'w%d' % len(reqs), 'codes': f['codes'], 'ops': f['init'] + h,
                         'env': [] if purity else ['ADAPTON_NO_PURITY'], 'from': f['name']})
    return reqs


def randoms(mix, n, seed, tag=''):
    tot = sum(mix.values())
    reqs = []
    for prof, w in mix.items():
        cls, over, flags = PROFILES[prof]
        for i in range(max(1, int(n * w / tot))):
            g = getattr(gen, cls)(random.Random('%s/%s/%s/%d' % (seed, tag, prof, i)), **over)
            q = g.trace('r%d' % len(reqs), **flags)
            q['from'] = prof
            reqs.append(q)
    return reqs


def flagged(reqs, flags):
    for q in reqs:
        q.update(flags)
    return reqs


def identities(q):
    """Does the request identify anything by its content?"""
    return 'multi' in q or 'ADAPTON_STRUCTURAL' in q.get('env', []) or \
        any(i[0] in ('struct', 'sthunk', 'scell') for c in q['codes'] + [q['ops']] for i in c)


def coarse(reqs, every=3):
    """Every third request runs on values many of which have the same hash, unless hashes identify something in it."""
    for i, q in enumerate(reqs):
        if i % every == 1 and not identities(q):
            q['coarse'] = True


def validate(reqs, checks, ctx, twins=None):
    """Runs the requests, judges the recorded traces; reports violations to ctx.
    twins: index of a request -> index of the request whose history it must equal."""
    coarse(reqs)
    lines = run_harness(ctx.binary, 'eng', reqs, ctx.scratch)
    traces = to_traces(reqs, lines)
    for i, j in (twins or {}).items():
        traces[i]['twin'] = j + 1
    owner = [q for q in reqs for _ in q.get('multi', [0])]
    bad, st = judge(traces, checks, ctx.scratch)
    ctx.add(traces=st['done'], trace_ops=st['ops'], states=st['distinct'], transitions=st['generated'])
    if 'trace' in checks:
        ctx.add(lockstep=st['sync'])
    ctx.add(stopped=st['stopped'])
    for t, k, what in bad:
        ctx.violation({'request': owner[t], 'checks': checks, 'op': k, 'what': what, 'record': traces[t]['ops'][k] if k < len(traces[t]['ops']) else None})
    ctx.count_runs(traces)
    return traces


def engine_check(pid, ctx):
    if pid in SPECIAL:
        return SPECIAL[pid](ctx)
    p = PROPS[pid]
    rng = random.Random('%s/%s' % (ctx.seed, pid))
    quick = ctx.tier == 'quick'
    flags = p.get('flags', {})
    heavy = bool(flags.get('snap'))
    cap = (1800 if heavy else 4000) if quick else (12000 if heavy else 30000)
    bound = p.get('bound', 3 if len(p['fams']) > 8 else 4) + (0 if quick else 2 if len(p['fams']) <= 8 else 1)
    reqs, st = enumerated(p['fams'], bound, True, ctx.scratch, cap, rng)
    progs = st['programs']
    ctx.add(spec_states=st['states'], spec_transitions=st['transitions'], spec_histories=st['histories'], states=st['states'], transitions=st['transitions'])
    if pid in ('C12', 'C01') or not quick:
        r2, st = enumerated(['structs', 'consts', 'nested'], min(bound, 3), False, ctx.scratch, cap // 4, rng)
        ctx.add(spec_states=st['states'], spec_transitions=st['transitions'], spec_histories=st['histories'], states=st['states'], transitions=st['transitions'])
        for i, q in enumerate(r2):
            q['id'] = 'f%d' % i
        reqs += r2
    validate(flagged(reqs, flags), p['checks'], ctx)
    ctx.add(replayed_histories=len(reqs))
    few = len(p['fams']) <= 8
    validate(flagged(walks(progs, (60 if few else 40) * (1 if quick else 10), rng), flags), p['checks'], ctx)
    rounds = 1 if quick else 12
    for i in range(rounds):
        if ctx.late(0.85):
            break
        validate(flagged(randoms(p['mix'], p['n'], ctx.seed, '' if i == 0 else str(i)), flags), p['checks'], ctx)


def spec_only(ctx, fams, bound, purity=True, cap=4000):
    reqs, st = enumerated(fams, bound, purity, ctx.scratch, cap, random.Random('%s/%s' % (ctx.seed, ctx.pid)))
    ctx.add(spec_states=st['states'], spec_transitions=st['transitions'], spec_histories=st['histories'], states=st['states'], transitions=st['transitions'])
    return reqs


def rounds(ctx, quick, thorough):
    for i in range(quick if ctx.tier == 'quick' else thorough):
        if ctx.late(0.8):
            return
        yield '' if i == 0 else str(i)


def renamed(reqs, pre):
    out = []
    for i, q in enumerate(reqs):
        q = dict(q); q['id'] = '%s%d' % (pre, i); out.append(q)
    return out


# ----- C15: the trace agrees with the specification's, and recording does not interfere
def c15(ctx):
    reqs = spec_only(ctx, ALL, 3 if ctx.tier == 'quick' else 4, cap=800 if ctx.tier == 'quick' else 6000)
    validate(flagged(reqs, {'snap': True, 'trace': True}), ['trace'], ctx)
    for tag in rounds(ctx, 1, 12):
        r = randoms(MIX, 560, ctx.seed, 'trace' + tag)
        for i, q in enumerate(r):
            q.update(snap=True, trace=True, dbg=i % 3 == 0)
        validate(r, ['trace'], ctx)
        # twins: with everything recorded, with snapshots only, with nothing
        r = randoms(MIX, 240, ctx.seed, 'twin' + tag)
        a = renamed(flagged([dict(q) for q in r], {'snap': True, 'trace': True, 'dbg': True, 'quiet': True}), 'a')
        b = renamed(flagged([dict(q) for q in r], {'snap': True}), 'b')
        c = renamed(r, 'c')
        n = len(r)
        tw = {i: n + i for i in range(n)}
        tw.update({n + i: 2 * n + i for i in range(n)})
        validate(a + b + c, ['twin'], ctx, tw)


# ----- C14: the naive engine, and several engines side by side
FRESH = {'base': 3, 'nest': 2, 'proj': 2, 'ns': 1, 'struct': 1, 'unnamed': 2}


def fresh_reqs(n, seed, tag, flags, nset=False):
    tot = sum(FRESH.values())
    reqs = []
    for prof, w in FRESH.items():
        over = dict(PROFILES[prof][1], nset=nset, i_fcyc=1)
        for i in range(max(1, n * w // tot)):
            g = gen.GenFresh(random.Random('%s/%s/%s/%d' % (seed, tag, prof, i)), **over)
            reqs.append(g.trace('n%d' % len(reqs), **flags))
    return reqs


def c14(ctx):
    rng = random.Random('%s/C14' % ctx.seed)
    spec_only(ctx, ALL, 3 if ctx.tier == 'quick' else 4)
    for tag in rounds(ctx, 1, 12):
        validate(fresh_reqs(700, ctx.seed, 'naive' + tag, {'naive': True}, True), ['deep', 'engine'], ctx)
        validate(fresh_reqs(300, ctx.seed, 'naive' + tag, {}), ['value'], ctx)
        # several engines, each with a history of its own, interleaved
        subs = randoms(MIX, 420, ctx.seed, 'multi' + tag)
        rng.shuffle(subs)
        # among them, engines that differ in their configuration
        for i, q in enumerate(flagged(randoms(PURE, 160, ctx.seed, 'multipure' + tag), {})):
            subs.append(q if i % 2 else dict(q, env=['ADAPTON_NO_PURITY']))
        rng.shuffle(subs)
        naive = fresh_reqs(60, ctx.seed, 'multi' + tag, {'naive': True})
        ms = []
        while len(subs) >= 3:
            k = rng.choice([2, 3])
            part = [dict(subs.pop(), snap=True) for _ in range(k)]
            sched = [i for i, q in enumerate(part) for _ in q['ops']]
            if rng.random() < .5:   # in blocks, else operation by operation
                rng.shuffle(sched)
            else:
                cut = sorted(rng.sample(range(len(sched)), 4))
                bl = [sched[a:b] for a, b in zip([0] + cut, cut + [len(sched)])]
                rng.shuffle(bl); sched = sum(bl, [])
            ms.append({'id': 'm%d' % len(ms), 'multi': part, 'sched': sched, 'direct': rng.random() < .6})
        validate(ms, ['value', 'extra', 'fresh', 'graph', 'engine'], ctx)
        ms = []
        for q in naive:
            d = fresh_reqs(11, ctx.seed, 'mixed%d' % len(ms) + tag, {'snap': False})[rng.randrange(11)]
            sched = [0] * len(q['ops']) + [1] * len(d['ops'])
            rng.shuffle(sched)
            ms.append({'id': 'x%d' % len(ms), 'multi': [q, d], 'sched': sched, 'direct': rng.random() < .6})
        validate(ms, ['deep', 'engine'], ctx)


# ----- C24: configuration flags
PURE = {'struct': 3, 'base': 1, 'lists': 1, 'ns': 1}
FLAGS = [['ADAPTON_NO_PURITY'], ['ADAPTON_CHECK_DCG'], ['ADAPTON_WRITE_DCG'], ['ADAPTON_GMLOG_DCG'],
         ['ADAPTON_NO_PURITY', 'ADAPTON_CHECK_DCG', 'ADAPTON_WRITE_DCG']]


def c24(ctx):
    spec_only(ctx, ALL, 2 if ctx.tier == 'quick' else 3)
    spec_only(ctx, ALL, 3 if ctx.tier == 'quick' else 4, False)
    for tag in rounds(ctx, 1, 12):
        for i, f in enumerate(FLAGS):
            writes = any('WRITE' in x or 'GMLOG' in x for x in f)
            validate(flagged(randoms(MIX, 60 if writes else 500, ctx.seed, 'flags%d' % i + tag), {'env': f}), ['value'], ctx)
            if 'ADAPTON_NO_PURITY' in f and not writes:
                validate(flagged(randoms(PURE, 300, ctx.seed, 'flags%d' % i + tag), {'env': f, 'snap': True}), ['value', 'graph'], ctx)
        # Cyclic programs, too
        for i, f in enumerate([['ADAPTON_CHECK_DCG'], ['ADAPTON_NO_PURITY', 'ADAPTON_CHECK_DCG']]):
            validate(flagged(randoms({'cyc': 3, 'once': 1, 'turn': 2}, 200, ctx.seed, 'cycflags%d' % i + tag), {'env': f}), ['value'], ctx)
        for i, f in enumerate([['ADAPTON_STRUCTURAL'], ['ADAPTON_STRUCTURAL', 'ADAPTON_NO_PURITY']]):
            validate(fresh_reqs(400, ctx.seed, 'flags' + tag, {'env': f, 'loose': True}), ['deep'], ctx)


# ----- C27: dumped graphs
def c27(ctx):
    dumping = {'env': ['ADAPTON_WRITE_DCG'], 'snap': True, 'dump': True}
    reqs = spec_only(ctx, ALL, 3, cap=400 if ctx.tier == 'quick' else 2000)
    ctx.add(replayed_histories=len(reqs))
    validate(flagged(reqs, dumping), ['dump'], ctx)
    for tag in rounds(ctx, 1, 12):
        validate(flagged(randoms(MIX, 300, ctx.seed, 'dump' + tag), dumping), ['dump'], ctx)


# ----- C28: reflections show contents, results, and what is running
def c28(ctx):
    reqs = spec_only(ctx, ALL, 3, cap=600 if ctx.tier == 'quick' else 3000)
    ctx.add(replayed_histories=len(reqs))
    validate(flagged(reqs, {'mid': True}), ['reflect', 'value', 'extra'], ctx)
    for tag in rounds(ctx, 1, 12):
        validate(flagged(randoms(MIX, 400, ctx.seed, 'mid' + tag), {'mid': True}), ['reflect', 'value', 'extra'], ctx)
        validate(flagged(randoms({'cyc': 2, 'once': 1}, 100, ctx.seed, 'midcyc' + tag), {'mid': True}), ['reflect', 'value'], ctx)


SPECIAL = {'C28': c28, 'C27': c27, 'C14': c14, 'C15': c15, 'C24': c24}
