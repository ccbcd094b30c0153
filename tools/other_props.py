"""The checks of the properties that are not about histories of archivist programs."""
import json, random
from vlib import *

PROPS, TECH, NOTE = {}, {}, {}


def prop(pid, tech, note=None):
    def f(g):
        PROPS[pid], TECH[pid] = g, tech
        if note:
            NOTE[pid] = note
        return g
    return f


def explored(ctx, module, consts, cap=None, rng=None, timeout=880):
    hs, st = explore(module, consts, ctx.scratch, timeout=timeout)
    ctx.add(spec_states=st['states'], spec_transitions=st['transitions'], spec_histories=len(hs), states=st['states'], transitions=st['transitions'])
    if cap is not None and len(hs) > cap:
        hs = rng.sample(hs, cap)
    ctx.add(replayed_histories=len(hs))
    return hs


def rng_of(ctx, tag=''):
    return random.Random('%s/%s/%s' % (ctx.seed, ctx.pid, tag))


# ---- C13: names

def relatives(r, base, lo, hi):
    """Numbers that become the same when cut, shifted, signed, or rounded in some way."""
    out = [base] + [base + d for d in (1, -1)] + [base ^ (1 << e) for e in (3, 7, 8, 15, 16, 23, 24, 31, 32, 33, 47, 48, 52, 53, 62, 63)] + \
          [-base, base & 0xff, base & 0xffff, base & 0xffffffff, base >> 1, base * 10, base // 10]
    return [str(x) for x in r.sample([x for x in out if lo <= x <= hi] + [base], 6)]


def cousins(r, base):
    """Strings that become the same when trimmed, folded, cut, or normalized in some way."""
    out = [base, base + ' ', ' ' + base, base.upper(), base.lower(), base + 'a', base[:-1], base[::-1], base * 2, '"' + base + '"', base + '\n', base.replace('-', '_'),
           base.replace(' ', ''), base + 'é', base + 'e\u0301', base + '\t', base[1:], base + base[:1], base.replace('a', 'b')]
    return r.sample(out, 6) + [base]


def name_ops(r, n):
    ops, size = [], 0
    strs = ['a', 'b', '', 'x-l', '1', 'ForkL']
    word = lambda m: ''.join(r.choice(['a', 'b', 'A', 'z', '"', '(', ',', ' ', 'é', '-', '_', '1']) for _ in range(m))
    odd = cousins(r, word(r.choice([1, 3, 9, 16, 32, 64, 200])))
    big = r.random() < .5
    nums = ['0', '1', '2', '18446744073709551615'] + (relatives(r, r.choice([1, 5, 255, 65536, r.getrandbits(32), r.getrandbits(64)]), 0, 2 ** 64 - 1) if big else [])
    ints = ['0', '1', '-1', '2', '9223372036854775807', '-9223372036854775808'] + \
           (relatives(r, r.choice([1, -5, 255, -65536, r.getrandbits(32), -r.getrandbits(63), r.getrandbits(63)]), -2 ** 63, 2 ** 63 - 1) if big else [])
    if big:
        nums += r.sample(ints, 2); ints += r.sample(nums, 2)
        nums = [x for x in nums if x[0] != '-']; ints = [x for x in ints if int(x) < 2 ** 63]
    while len(ops) < n and size < 40:
        k = r.choice(['unit', 'str', 'string', 'usize', 'isize'] if not size or r.random() < (.7 if big else .25) else
                     ['pair', 'pair', 'pair', 'fork', 'fork', 'fork!', 'forko!', 'fork3', 'fork4', 'clone', 'none'])
        i = r.randint(1, max(1, size)); j = r.randint(1, max(1, size))
        if k in ('str', 'string'):
            op, d = [k, r.choice(strs if r.random() < .6 else odd)], 1
        elif k == 'usize':
            op, d = [k, r.choice(nums)], 1
        elif k == 'isize':
            op, d = [k, r.choice(ints)], 1
        elif k == 'pair':
            op, d = [k, i, j], 1
        else:
            op, d = ([k], dict(unit=1, none=0)[k]) if k in ('unit', 'none') else ([k, i], {'fork3': 3, 'fork4': 4, 'clone': 1}.get(k, 2))
        ops.append(op); size += d
    return ops


@prop('C13', 'TLC exploration of Names.tla (term algebra); every name-making program replayed, classes of equal/interchangeable names judged by TLC')
def c13(ctx):
    quick = ctx.tier == 'quick'
    r = rng_of(ctx)
    hs = explored(ctx, 'Names', {'MaxOps': 3 if quick else 4}, 5000 if quick else 40000, r)
    progs = hs + [name_ops(r, r.randint(4, 14)) for _ in range(1500 if quick else 20000)]
    observe(ctx, 'Names', {'MaxOps': 0}, 'names', [{'id': 'n%d' % i, 'ops': p} for i, p in enumerate(progs)])


# ---- C17: reflected values

def value_tree(r, depth):
    word = lambda: r.choice(['Cons', 'Nil', 'X', 'a1_b', '_c', 'Some', 'Foo2', 'z']) if r.random() < .7 else \
        r.choice('XYzq_') + ''.join(r.choice('abzABZ_019') for _ in range(r.choice([1, 4, 12, 30, 70])))
    digits = lambda m: str(r.choice([r.getrandbits(r.choice([4, 8, 16, 31, 32, 33, 53, 63])), 2 ** r.randint(1, 63), 10 ** r.randint(1, 18)]) % m)
    chars = lambda: [r.choice([97, 98, 32, 34, 39, 40, 41, 44, 58, 91, 92, 93, 123, 125, 45, 48, 0, 9, 10, 13, 27, 127, 233, 0x301, 0x3b1, 0x1f600, 0xfeff]) for _ in range(r.randint(0, 6) if r.random() < .97 else r.randint(20, 200))]
    def term(d):
        k = r.choice('USNI' + 'PLR' * (d > 0) * 2)
        return {'U': lambda: ['U'], 'S': lambda: ['S', chars()], 'N': lambda: ['N', r.choice(['0', '7', '18446744073709551615', digits(2 ** 64)])],
                'I': lambda: ['I', r.choice(['0', '5', '-3', '-9223372036854775808', digits(2 ** 63), '-' + str(int(digits(2 ** 62)) + 1)])], 'P': lambda: ['P', term(d - 1), term(d - 1)],
                'L': lambda: ['L', term(d - 1)], 'R': lambda: ['R', term(d - 1)]}[k]()
    if depth == 0 or r.random() < .15:
        k = r.choice(['nat', 'num', 'bool', 'str', 'str', 'con', 'name', 'name', 'cell', 'thunk', 'hcell', 'odd'])
        path = lambda: [term(1) for _ in range(r.randint(0, 2))]
        return {'nat': lambda: ['nat', r.choice(['0', '12', '18446744073709551615', digits(2 ** 64)])],
                'num': lambda: r.choice([['num', '4', False], ['num', '1', True], ['num', '9223372036854775808', True], ['num', digits(2 ** 63), False], ['num', str(int(digits(2 ** 62)) + 1), True]]),
                'bool': lambda: ['bool', r.choice(['true', 'false'])], 'str': lambda: ['str', chars()], 'con': lambda: ['con', word(), []],
                'name': lambda: ['name', term(2)], 'cell': lambda: ['cell', path(), term(2)],
                'thunk': lambda: ['thunk', [['S', [116]]] + path(), term(2)], 'hcell': lambda: ['hcell', path(), r.randint(2, 6)],
                # constructors called like those of names, but without their arguments
                'odd': lambda: r.choice([['con', 'Pair', [['nat', '1'], ['nat', '2']]], ['con', 'String', [['nat', '1']]], ['con', 'Usize', [['num', '1', True]]],
                                         ['con', 'ForkL', [['str', [97]]]], ['con', 'Isize', []], ['struct', 'Loc', [['path', ['vec', []]]]],
                                         ['struct', 'Pair', [['a', ['nat', '1']]]]])}[k]()
    kids = lambda: [value_tree(r, depth - 1) for _ in range(r.randint(0, 3))] if r.random() < .96 else [value_tree(r, 0) for _ in range(r.randint(4, 24))]
    k = r.choice(['tup', 'vec', 'con', 'con', 'struct', 'struct', 'put'])
    return {'tup': lambda: ['tup', kids()], 'vec': lambda: ['vec', kids()], 'con': lambda: ['con', word(), kids()],
            'struct': lambda: ['struct', word(), [[('f%d' if wd else word() + '%d') % i, v] for wd in [r.random() < .7] for i, v in enumerate(kids())]], 'put': lambda: ['put', value_tree(r, depth - 1)]}[k]()


def deep_tree(r, n):
    v = value_tree(r, 1)
    for _ in range(n):
        x = r.choice([['nat', '1'], ['con', 'Nil', []], ['str', [41]]])
        v = r.choice([['tup', [v, x]], ['vec', [x, v]], ['con', 'Cons', [x, v]], ['struct', 'S', [['a', v], ['b', x]]], ['put', v], ['con', 'Some', [v]]])
    return v


@prop('C17', 'TLC exploration of ParseVal.tla (values and their reflection); every value replayed through debug output, reflected values judged by TLC')
def c17(ctx):
    quick = ctx.tier == 'quick'
    r = rng_of(ctx)
    vs = explored(ctx, 'ParseVal', {'MaxDepth': 2 if quick else 3}, 8000 if quick else 60000, r)
    vs += [value_tree(r, r.randint(1, 4)) for _ in range(3000 if quick else 30000)]
    vs += [deep_tree(r, r.randint(8, 60)) for _ in range(60 if quick else 600)]
    observe(ctx, 'ParseVal', {'MaxDepth': 0}, 'reflectval', [{'id': 'v%d' % i, 'v': v} for i, v in enumerate(vs)])
    progs = [name_ops(r, r.randint(1, 12)) for _ in range(800 if quick else 8000)]
    observe(ctx, 'Names', {'MaxOps': 0}, 'names', [{'id': 's%d' % i, 'ops': p, 'show': True} for i, p in enumerate(progs)])


# ---- C16: effect counts

def effect_seq(r, n, role='e', within=None):
    """A random well-formed trace of about n effects."""
    out = []
    while n > 0:
        if within in ('same', 'diff', 'dirty'):
            k = 'dirty'
        else:
            k = r.choice(['dbg', 'dbg', 'fresh', 'same', 'diff', 'get', 'hit', 'miss', 'dirty'] +
                         (['cleanrec', 'cleaneval', 'cleaneval', 'cleaneval', 'cleanedge', 'remove'] if role == 'a' else ['miss', 'hit']))
        n -= 1
        sub = []
        if k not in ('fresh', 'get', 'cleanedge', 'remove') and n > 0:
            m = r.randint(0, n)
            inner = ('a' if k in ('hit', 'miss') else role)
            sub = effect_seq(r, m, inner, k if k != 'dbg' else None)
            n -= m
        out += [k] + sub + ['.']
    return out


@prop('C16', 'TLC exploration of Counts.tla (counting machine, transparency of debug extents as invariant); every explored trace and traces recorded from the engine counted by the implementation, counts judged by TLC')
def c16(ctx):
    import engine_props
    quick = ctx.tier == 'quick'
    r = rng_of(ctx)
    hs = explored(ctx, 'Counts', {'MaxEffects': 4 if quick else 5}, 20000 if quick else 100000, r)
    hs += [effect_seq(r, r.randint(5, 30)) for _ in range(3000 if quick else 30000)]
    observe(ctx, 'Counts', {'MaxEffects': 0}, 'counts', [{'id': 'c%d' % i, 'hist': h, 'want': r.choice([1, 1, 7])} for i, h in enumerate(hs)])
    # Traces recorded from the engine, with and without debug extents in the programs.
    for rnd in range(1 if quick else 6):
        reqs = engine_props.randoms(engine_props.MIX, 500 if quick else 2500, ctx.seed, 'count%d' % rnd)
        for i, q in enumerate(reqs):
            q.update(trace=True, count=True, deep=0, dbg=bool(i % 2))
        lines = run_harness(ctx.binary, 'eng', reqs, ctx.scratch)
        recs, twins = [], []
        for q in reqs:
            for l in lines[q['id']]:
                if 'ev' in l:
                    h, c, p = l['ev']
                    if c == 'panic':
                        recs.append({'id': q['id'], 'hist': h, 'died': 'counting panics', 'req': q['id'], 'op': l['k']})
                    else:
                        recs.append({'id': q['id'], 'hist': h, 'counts': c, 'printed': p, 'updates': 1, 'want': 1, 'died': '', 'req': q['id'], 'op': l['k']})
        bad, st = judge_records('Counts', {'MaxEffects': 0}, recs, ctx.scratch)
        ctx.add(states=st['distinct'], transitions=st['generated'], traces=len(recs), recorded_traces=len(recs))
        byid = {q['id']: q for q in reqs}
        for i, what in bad:
            ctx.violation({'request': byid[recs[i]['req']], 'record': recs[i], 'what': what})


# ---- C21: bit strings and tries

def bit_program(r):
    ops, n = [], 0
    while len(ops) < r.randint(3, 34):
        k = r.random()
        if k < .7 and n < 30:
            ops.append(['prepend', r.randint(0, 1)]); n += 1
        elif k < .97:
            ops.append(['shift', r.choice([0, 1, 2, r.randint(0, 31)])])
        else:
            ops.append(['reset', 0]); n = 0
    return ops


def bit_request(r, ops):
    word = lambda: r.choice([[r.randint(0, 1) for _ in range(64)], [0] * 64, [1] * 64, [0] * 63 + [1], [r.randint(0, 1)] * 32 + [0] * 32])
    return {'ops': ops, 'probes': [[r.randint(0, 62), word()] for _ in range(4)],
            'pows': [[2, r.randint(0, 62)]] + [[b, r.randint(0, {0: 40, 1: 40, 2: 30, 3: 19, 5: 13, 7: 11}.get(abs(b), 6))] for b in [r.randint(-20, 20)]]}


def trie_steps(r, paths, n):
    """Successive tries over the elements 1..len(paths): the decoration stays, the elements change."""
    seed, mind = r.random(), r.randint(0, 4)
    rate = r.choice([.1, .3, .6])

    def deco(key, k):
        return random.Random('%s/%s/%s' % (seed, key, k)).random()

    def wrap(t, cells, key):
        for k in range(2):
            x = deco(key, k)
            if x > rate:
                break
            x /= rate
            nm = key + '.%d' % k
            if x < .35:
                cells.append(['c' + nm, t]); t = ['cell', 'c' + nm]
            elif x < .6:
                t = ['name', 'n' + nm, t]
            elif x < .75:
                t = ['thunk', 't' + nm, t]
            elif x < .9:
                t = ['put', t]
            else:
                t = ['root', mind, t]
        return t

    def tree(es, d, cells, key):
        if not es:
            t = ['nil']
        elif len(es) == 1 and (d >= mind or d >= 30):
            t = ['leaf', es[0]]
        else:
            t = ['bin'] + [tree([e for e in es if paths[e - 1][d] == b], d + 1, cells, key + str(b)) for b in (0, 1)]
        return wrap(t, cells, key)
    steps, es = [], [e for e in range(1, len(paths) + 1) if r.random() < .5]
    for _ in range(n):
        cells = []
        t = tree(sorted(es), 0, cells, '')
        if es and r.random() < .5:
            t = ['root', mind, t]
        steps.append({'t': t, 'c': cells})
        for _ in range(r.randint(1, 2)):
            e = r.randint(1, len(paths))
            es = [x for x in es if x != e] if e in es else es + [e]
    return steps


@prop('C21', 'TLC exploration of Bits.tla and Trie.tla (insertion keeps elements along their paths); every program and trie rebuilt with the crate, in both engines and edited from step to step, answers judged by TLC')
def c21(ctx):
    quick = ctx.tier == 'quick'
    r = rng_of(ctx)
    hs = explored(ctx, 'Bits', {'MaxOps': 5 if quick else 6}, 8000, r)
    hs += [bit_program(r) for _ in range(1500 if quick else 15000)]
    observe(ctx, 'Bits', {'MaxOps': 0}, 'bits', [dict(bit_request(r, h), id='b%d' % i) for i, h in enumerate(hs)])
    ts = explored(ctx, 'Trie', {'MaxOps': 3 if quick else 4, 'Depth': 2}, 3000 if quick else 20000, r)
    reqs = [dict(t, id='e%d' % i, splits=[], real=False) for i, t in enumerate(ts)]
    # Elements 1..40 by their real hashes.
    real = run_harness(ctx.binary, 'hashes', [{'id': 'h', 'count': 150}], ctx.scratch)['h'][0]['paths']
    for i in range(600 if quick else 8000):
        n = r.choice([3, 6, 12, 40]) if i % 40 else 150
        steps = trie_steps(r, real[:n], r.randint(1, 4))
        if not i % 20:
            steps.append({'t': ['empty', r.choice([0, 1, 5, 29, 30])], 'c': []})
        reqs.append({'id': 'r%d' % i, 'steps': steps, 'paths': real[:n], 'real': True,
                     'splits': [{'x': r.randint(1, n), 'd': r.randint(0, 29)} for _ in range(4)]})
    observe(ctx, 'Trie', {'MaxOps': 0, 'Depth': 2}, 'trie', reqs)


# ---- C10: ambiguous names

def ambig_ops(r, n):
    ops, tys = [], ['U', 'I', 'S', 'P', 'W']
    some = r.sample(tys, 2)
    ty = lambda: r.choice(some) if r.random() < .85 else r.choice(tys)
    where = lambda: (r.choice(['', '', 'x']), r.choice('ab'))
    syms = [1, 1, 2] if r.random() < .5 else r.sample(range(10), 3)
    code = lambda: [r.choice(syms), ty(), ty(), r.choice(['unit'] * 6 + ['num'])]
    core = lambda: r.randint(0, 2)
    while len(ops) < n:
        k = r.choice(['cell'] * 3 + ['thunk'] * 5 + ['scell', 'sthunk', 'sthunk', 'watch', 'watch', 'swatch', 'naive', 'put', 'tmap', 'same'] + ['force'] * 4 + ['fmap', 'set', 'set'])
        m = r.choice(['e', 'e', 't'])
        p, nm = where()
        h = r.randint(1, max(1, len(ops)))
        ops.append([m, k] + {'cell': lambda: [p, nm, ty(), core()], 'thunk': lambda: [p, nm, code(), core()], 'scell': lambda: [p, ty(), core()],
                             'sthunk': lambda: [p, code(), core()], 'watch': lambda: [p, r.choice(['a', 'b', 'w']), r.choice(syms), h],
                         'swatch': lambda: [p, r.choice(syms), h], 'naive': lambda: [code(), core()], 'put': lambda: [ty(), core()], 'tmap': lambda: [r.choice([1, 2]), h],
                         'same': lambda: [h, r.randint(1, max(1, len(ops)))], 'force': lambda: [h],
                             'fmap': lambda: [h], 'set': lambda: [h, core()]}[k]())
    return ops


@prop('C10', 'TLC exploration of Ambig.tla (typed locations; refused operations change nothing, as invariant); every explored history and random ones replayed over five Rust types, outcomes judged by TLC')
def c10(ctx):
    quick = ctx.tier == 'quick'
    r = rng_of(ctx)
    hs = explored(ctx, 'Ambig', {'MaxOps': 3 if quick else 4}, 12000 if quick else 80000, r)
    hs += [ambig_ops(r, r.randint(4, 16)) for _ in range(6000 if quick else 60000)]
    def demand_all(h):
        # everything demanded and compared, directly and as the argument of structural thunks
        n, u = len(h), [i for i, o in enumerate(h) if o[1] in ('cell', 'thunk', 'scell', 'sthunk', 'naive', 'put', 'tmap')][:8]
        h = h + [['e', 'force', i + 1] for i in range(n)] + [['e', 'same', i + 1, j + 1] for i in range(min(n, 6)) for j in range(i)]
        m = len(h)
        h = h + [['e', 'swatch', '', 1, i + 1] for i in u]
        return h + [['e', 'force', m + k + 1] for k in range(len(u))] + [['e', 'same', m + k + 1, m + j + 1] for k in range(len(u)) for j in range(k)]
    observe(ctx, 'Ambig', {'MaxOps': 0}, 'ambig', [{'id': 'a%d' % i, 'ops': demand_all(h)} for i, h in enumerate(hs)])


# ---- C18, C19, C20: lists, trees, mergesort

LIST_OPS = ['vec', 'elim', 'limit', 'demand', 'is_empty', 'is_name', 'map_lazy', 'map_eager', 'map_eager2', 'filter_lazy', 'filter_eager', 'reverse',
            'reverse_onto', 'fold', 'push', 'pop', 'append', 'name_art', 'name_art_none', 'name_op', 'name_art_op', 'merge', 'gen', 'singleton', 'rebuild', 'of_vec']
TREE_OPS = ['eager', 'list_L', 'list_R', 'seq_L', 'seq_R', 'up', 'nm_dn', 'nm_dn_some', 'monoid', 'filter_list', 'filter_tree', 'prune', 'tree_is_empty',
            'is_nil', 'lev', 'telim', 'telim_ref', 'telim_arg', 'full_move']
SORT_OPS = ['sort1', 'sort2', 'sort2_none', 'sort3', 'sort3_none']


def sized(r, *sizes, big=60):
    return r.choice(sizes) if r.random() < .97 else big


def element(r):
    return r.choice([r.randint(0, 3), r.randint(0, 99)])


def wide_element(r):
    return element(r) if r.random() < .98 else r.choice([255, 256, 1000, 65536, 1000000])


def list_steps(r, n, steps, arts=True, element=element):
    """Successive lists: elements and names come and go, each name keeps the articulation behind it."""
    names = (['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j'] + ['m%d' % i for i in range(30)])[:r.randint(0, 10 if n < 20 else n)]
    deco = {x: r.choice([[], [['c', x]], [['c', x]], [['c', x]], [['t', 't' + x]], [['c', x], ['t', 't' + x]], [['p']], [['p'], ['c', x]]]) if arts else [['c', x]] for x in names}
    loose = ['k%d' % i for i in range(r.randint(0, 2))] if arts else []
    q = [('x', element(r)) for _ in range(r.randint(0, n))]
    for x in names:
        if r.random() < .7:
            q.insert(r.randint(0, len(q)), ('n', x))
    for x in loose:
        q.insert(r.randint(0, len(q)), ('c', x))

    def render(q):
        out = []
        for i in q:
            out.append(list(i))
            if i[0] == 'n':
                out += deco[i[1]]
        return out
    res = [render(q)]
    for _ in range(steps - 1):
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            k = r.random()
            here = {i[1] for i in q if i[0] == 'n'}
            away = [x for x in names if x not in here]
            if k < .35 or not q:
                q.insert(r.randint(0, len(q)), ('x', element(r)))
            elif k < .6:
                i = r.randrange(len(q))
                if q[i][0] == 'x':
                    q[i] = ('x', element(r))
            elif k < .85:
                del q[r.randrange(len(q))]
            elif away:
                q.insert(r.randint(0, len(q)), ('n', r.choice(away)))
        res.append(render(q))
    if r.random() < .4:
        res.append(r.choice(res))
    return res


def tree_steps(r, steps):
    names = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'][:r.randint(0, 8)]
    count = [0]
    empty = r.choice([.1, .35, .6])

    def art(t):
        k = r.random()
        if k < .25:
            count[0] += 1
            return [r.choice(['cell', 'cell', 'thunk']), 'k%d' % count[0], t]
        return ['put', t] if k < .3 else t

    def grow(d):
        if d == 0 or r.random() < .1:
            return art(['nil'] if r.random() < empty else ['leaf', element(r)])
        lev = r.randint(0, 9)
        if left and r.random() < .6:
            x = left.pop(r.randrange(len(left)))
            return art(['name', x, lev, grow(d - 1), grow(d - 1)])
        return art(['bin', lev, grow(d - 1), grow(d - 1)])

    def here(t):
        return {'nil': [], 'leaf': []}.get(t[0]) if t[0] in ('nil', 'leaf') else sum([here(x) for x in t[1:] if isinstance(x, list)], [t[1]] if t[0] == 'name' else [])

    def edit(t):
        if t[0] in ('nil', 'leaf'):
            return r.choice([['nil'], ['leaf', element(r)], ['leaf', element(r)]])
        kids = [i for i, x in enumerate(t) if isinstance(x, list)]
        k = r.random()
        if k < .08 and len(kids) == 2:
            return t[:kids[0]] + [t[kids[1]], t[kids[0]]]
        if k < .16 and t[0] in ('bin', 'name'):
            return [t[0]] + ([t[1]] if t[0] == 'name' else []) + [r.randint(0, 9)] + t[kids[0]:]
        if k < .22:
            return r.choice([['nil'], t[kids[0]]])
        i = r.choice(kids)
        return t[:i] + [edit(t[i])] + t[i + 1:]
    left = list(names)
    t = grow(r.randint(0, 5))
    res = [t]
    for _ in range(steps - 1):
        t = edit(t)
        res.append(t)
    return res


def collection(r, id, kind, steps, ops, **more):
    q = dict(id=id, kind=kind, steps=steps, ops=ops, lim=r.choice([0, 1, 2, 3, 50]), pred=r.choice([['lt', 2], ['ge', 50], ['par', 0], ['par', 1], ['lt', 0], ['ge', 0]]),
             fun=r.choice([[1, 0], [2, 1], [0, 5], [1, 7]]), dir=r.choice('LR'), set=r.random() < .5, within=r.random() < .6,
             other=[['n', 'y']] * (r.random() < .4) + [['x', element(r)] for _ in range(r.randint(0, 3))] + r.choice([[], [], [['n', 'z'], ['c', 'z'], ['x', element(r)]]]))
    q.update(more)
    return q


def some_ops(r, ops, n):
    return r.sample(ops, min(n, len(ops)))


def in_order(items):
    xs = iter(sorted(i[1] for i in items if i[0] == 'x'))
    return [['x', next(xs)] if i[0] == 'x' else i for i in items]


def lazy_requests(r, n, ops, size):
    reqs = []
    for i in range(n):
        k = r.randint(0, size)
        always = r.random() < .6
        items = []
        for j in range(k):
            if j and (always or r.random() < .4) or r.random() < .2:
                items.append(['n', 'n%d' % j])
            items.append(['x', element(r)])
        op = r.choice(ops)
        other = []
        if op == 'merge':
            cut = r.randint(0, len(items))
            items, other = in_order(items[:cut]), in_order(items[cut:])
        reqs.append({'id': 'l%d' % i, 'kind': 'lazy', 'items': items, 'other': other, 'op': op, 'dir': r.choice('LR'), 'pred': r.choice([['lt', 2], ['ge', 50], ['par', 0], ['par', 1]])})
    return reqs


@prop('C18', 'TLC exploration of Collections.tla (an editor at work on named lists; laws of the operations as invariant); every edit history rebuilt with the crate, all list operations on it in both engines, answers judged by TLC')
def c18(ctx):
    quick = ctx.tier == 'quick'
    r = rng_of(ctx)
    hs = explored(ctx, 'Collections', {'MaxEdits': 3 if quick else 4}, 1500 if quick else 20000, r)
    reqs = [collection(r, 'e%d' % i, 'list', h, LIST_OPS) for i, h in enumerate(hs)]
    reqs += [collection(r, 'r%d' % i, 'list', list_steps(r, sized(r, 3, 6, 12), r.randint(2, 6), element=wide_element), LIST_OPS) for i in range(700 if quick else 8000)]
    observe(ctx, 'Collections', {'MaxEdits': 0}, 'collections', reqs)
    observe(ctx, 'Collections', {'MaxEdits': 0}, 'lazy', lazy_requests(r, 1000 if quick else 10000, ['map_lazy', 'filter_lazy'], 12))


@prop('C19', 'TLC exploration of Collections.tla (trees over edited lists; laws of traversals, filters and pruning as invariant); every edit history made into trees by the crate, and random tree terms, all tree operations in both engines, answers judged by TLC')
def c19(ctx):
    quick = ctx.tier == 'quick'
    r = rng_of(ctx)
    hs = explored(ctx, 'Collections', {'MaxEdits': 3 if quick else 4}, 1000 if quick else 20000, r)
    reqs = [collection(r, 'e%d' % i, 'list', h, TREE_OPS) for i, h in enumerate(hs)]
    reqs += [collection(r, 'r%d' % i, 'list', list_steps(r, sized(r, 4, 8, 16), r.randint(2, 6)), TREE_OPS) for i in range(400 if quick else 5000)]
    reqs += [collection(r, 't%d' % i, 'tree', tree_steps(r, r.randint(2, 5)), TREE_OPS) for i in range(600 if quick else 8000)]
    observe(ctx, 'Collections', {'MaxEdits': 0}, 'collections', reqs)


@prop('C20', 'TLC exploration of Collections.tla (edited lists; sortedness and content as invariant); every edit history sorted by the three mergesorts in both engines, in whole and by prefixes, answers judged by TLC')
def c20(ctx):
    quick = ctx.tier == 'quick'
    r = rng_of(ctx)
    hs = explored(ctx, 'Collections', {'MaxEdits': 3 if quick else 4}, 1000 if quick else 20000, r)
    ops = SORT_OPS + ['merge']
    reqs = [collection(r, 'e%d' % i, 'list', h, ops) for i, h in enumerate(hs)]
    reqs += [collection(r, 'r%d' % i, 'list', list_steps(r, sized(r, 4, 8, 16, 30), r.randint(2, 6), element=wide_element), ops) for i in range(500 if quick else 6000)]
    reqs += [collection(r, 't%d' % i, 'tree', tree_steps(r, r.randint(2, 5)), SORT_OPS) for i in range(500 if quick else 6000)]
    observe(ctx, 'Collections', {'MaxEdits': 0}, 'collections', reqs)
    observe(ctx, 'Collections', {'MaxEdits': 0}, 'lazy', lazy_requests(r, 800 if quick else 8000, ['sort1', 'sort2', 'sort3', 'merge'], 32))


# ---- C25: maps and sets

def map_steps(r, n, steps):
    names = ['a', 'b', 'c', 'd']
    deco = {x: r.choice([[], [['c', x]], [['c', x]], [['t', 't' + x]], [['p']], [['p'], ['c', x]]]) for x in names}
    key = lambda: r.randint(0, r.choice([2, 8])) if r.random() < .97 else r.choice([8, 255, 256, 257, 65536, 65538, 1000000])
    q = [('b', key(), r.randint(0, 3)) for _ in range(r.randint(0, n))]
    for x in names:
        if r.random() < .5:
            q.insert(r.randint(0, len(q)), ('n', x))
    res = []
    for _ in range(steps):
        res.append(sum([[list(i)] + (deco[i[1]] if i[0] == 'n' else []) for i in q], []))
        for _ in range(r.choice([1, 1, 2])):
            k = r.random()
            if k < .5 or not q:
                q.insert(r.choice([0, r.randint(0, len(q))]), ('b', key(), r.randint(0, 3)))
            elif k < .75:
                del q[r.randrange(len(q))]
            else:
                i = r.randrange(len(q))
                if q[i][0] == 'b':
                    q[i] = ('b', q[i][1], r.randint(0, 3))
    return res


@prop('C25', 'TLC exploration of Maps.tla (lists of bindings against the functions they stand for); every history and random ones rebuilt with the crate in both engines, answers judged by TLC')
def c25(ctx):
    quick = ctx.tier == 'quick'
    r = rng_of(ctx)
    hs = explored(ctx, 'Maps', {'MaxEdits': 4 if quick else 6}, 1500 if quick else 20000, r)
    req = lambda i, steps: dict(id=i, steps=steps, keys=[r.randint(0, 9) for _ in range(4)] + [0, 1, 2] + r.choice([[], [256, 65536], [257, 1000000]]), set=r.random() < .5, within=r.random() < .5,
                                other=[['b', r.randint(0, 8), 0] for _ in range(r.randint(0, 4))] + r.choice([[], [['n', 'z'], ['c', 'z'], ['b', r.randint(0, 3), 0]]]))
    reqs = [req('e%d' % i, h) for i, h in enumerate(hs)] + [req('r%d' % i, map_steps(r, sized(r, 2, 5, 10), r.randint(1, 6))) for i in range(1200 if quick else 12000)]
    observe(ctx, 'Maps', {'MaxEdits': 0}, 'maps', reqs)


# ---- C23: macros

def macro_ops(r, n):
    ops = []
    cells = lambda: [r.choice('ab'), r.choice(['', '', 'l', 'r'])]
    maybe = lambda nm: [] if r.random() < .2 else nm
    num = lambda: r.randint(0, 3)
    thk = lambda: [r.choice('tud'), r.choice(['', '', '', 'l', 'r'])]
    favour = r.choice(['f', 'g', 'r', 'fz', 'one', 'other::f'])

    def code(cs):
        c = favour if favour in cs and r.random() < .7 else r.choice(cs)
        return [c, {'one': [num()], 'r': [r.randint(1, max(1, len(ops))), num()]}.get(c, [num(), r.randint(0, 1)])]
    codes = ['f', 'g', 'r', 'fz', 'one', 'other::f']
    forms = {
        'cells!': lambda: [r.choice([0, 1, 5, 20, 20, 300])],
        'cell!': lambda: [num()], 'cell!?': lambda: [maybe(cells()), num()], 'cell![]': lambda: [r.choice('ab'), num()], 'let_cell': lambda: [r.choice('ab'), num()],
        'let_cell2': lambda: [num(), num()], 'cell_call': lambda: [cells()] + code(['f', 'gen']), 'let_thunk2': lambda: [], 'let_memo2': lambda: [], 'loop': lambda: [],
        'thunk!{}': lambda: [r.choice(['k5', 'k6']), []], 'eager!': lambda: code(['f', 'other::f', 'gen', 'one']),
        'thunk!?': lambda: [maybe(thk())] + code(codes), 'memo!?': lambda: [maybe(thk())] + code(codes), 'thunk!=>>': lambda: [thk()] + code(codes), 'memo!=>>': lambda: [thk()] + code(codes),
        'thunk![]': lambda: r.choice([['t'] + code(['f', 'other::f', 'g', 'r']), ['u'] + code(['f', 'one'])]),
        'eager!=>>': lambda: [[r.choice('vw'), r.choice(['', '', 'l', 'r'])]] + code(['f', 'other::f', 'one', 'r', 'gen', 'genz']),
        'thunk!?{}': lambda: [maybe([r.choice('de'), r.choice(['', 'l'])]), r.choice(['k5', 'k6']), []],
        'thunk![]{}': lambda: r.choice([['d', 'k5', []], ['d', 'k6', []], ['e', 'k5', []]]),
        'let_thunk': lambda: r.choice([['lt', 'k5', []], ['lt', 'k6', []], ['lu', 'k6', []]]),
        'let_memo': lambda: r.choice([['lm', 'k5', []], ['lm', 'k6', []], ['ln', 'k6', []]])}
    some = r.sample(sorted(forms), r.randint(3, 8))
    h = lambda: r.randint(1, max(1, len(ops)))
    while len(ops) < n:
        k = r.random()
        m = r.choice('eeet')
        if k < .2:
            ops.append([m, r.choice(['get!', 'get!,']), h()])
        elif k < .35:
            ops.append(['e', 'set', h(), num()])
        else:
            f = r.choice(some if r.random() < .8 else sorted(forms))
            ops.append([m, f] + forms[f]())
    return ops


@prop('C23', 'TLC exploration of Macros.tla (each macro form as engine operations; kept results, refusals and fresh names as invariants); every explored program and random ones run with the macros, results, runs, allocations and identities judged by TLC')
def c23(ctx):
    quick = ctx.tier == 'quick'
    r = rng_of(ctx)
    hs = explored(ctx, 'Macros', {'MaxOps': 3}, 12000, r)
    if not quick:
        hs += explored(ctx, 'Macros', {'MaxOps': 4}, 60000, r)
    hs += [macro_ops(r, r.randint(4, 16)) for _ in range(8000 if quick else 80000)]
    hs += [[['e', 'cell!', 3], [m, 'cells!', n], ['e', 'cells!', 10], ['e', 'get!', 1]] for m in 'et' for n in ([2000] if quick else [2000, 20000])]
    hs += [[['e', 'cell!', 3], ['e', 'cells!', 20000 if quick else 100000], ['e', 'get!', 1]]]
    demand = lambda h: h + [['e', 'get!', i + 1] for i in range(len(h))]
    observe(ctx, 'Macros', {'MaxOps': 0}, 'macros', [{'id': 'm%d' % i, 'ops': demand(h)} for i, h in enumerate(hs)])


# ---- C26: reuse in the catalog

REUSE_OPS = ['map_eager', 'map_eager2', 'map_lazy', 'filter_eager', 'filter_lazy', 'reverse', 'list_L', 'list_R', 'filter_list', 'up', 'dn', 'monoid',
             'filter_tree', 'prune', 'eager', 'sort1', 'sort2', 'sort3']


def reuse(r, id, steps, n):
    return dict(id=id, steps=[[i for i in q if i[0] != 'c'] for q in steps], ops=some_ops(r, REUSE_OPS, n), pred=r.choice([['lt', 2], ['ge', 50], ['par', 0], ['par', 1], ['lt', 30]]),
                dir=r.choice('LR'), within=r.random() < .5)


@prop('C26', 'TLC exploration of Reuse.tla (the functions of the catalog with their cells and thunks; what the signatures of two steps let be reused); every edit history replayed, calls, runs and outputs judged by TLC')
def c26(ctx):
    quick = ctx.tier == 'quick'
    r = rng_of(ctx)
    hs = explored(ctx, 'Reuse', {'MaxEdits': 3 if quick else 4}, 842 if quick else 10000, r)
    reqs = [reuse(r, 'e%d' % i, h, 6) for i, h in enumerate(hs)]
    reqs += [reuse(r, 'r%d' % i, list_steps(r, sized(r, 4, 8, 14, big=30), r.randint(2, 5), arts=False), 6) for i in range(1200 if quick else 10000)]
    observe(ctx, 'Reuse', {'MaxEdits': 0}, 'reuse', reqs)
