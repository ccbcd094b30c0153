"""Random archivist programs and editor histories (syntax: spec/Adapton.tla)."""
import random

REGS = list(range(2, 9))
PROJS = ['id', 'fst', 'snd', 'odd', 'hi', 'inc']

# Weights of instructions and editor operations; profiles override them.
BASE = dict(
    levels=4, cells=3, thunks=4, body=(3, 9), ops=(8, 16),
    i_force=10, i_fmap=3, i_fabs=1, i_fcyc=1, i_add=3, i_proj=4, i_pair=3, i_const=1, i_glob=8,
    i_cell=3, i_thunk=4, i_memo=1, i_sthunk=1, i_put=1, i_nthunk=1, i_tmap=1, i_eager=1,
    i_branch=4, i_ns=1, i_struct=1, i_tryset=0,
    o_set=8, o_recell=2, o_rethunk=3, o_force=10, o_fmap=1, o_fabs=1, o_fcyc=0, o_scell=0, o_sthunk=0,
    o_kind=1, o_nscell=0, o_nsthunk=0, o_badset=0, o_inner=2, o_newcell=0, o_touch=2,
    o_fform=0, pairs=0.4, uvals=0.0, length=(2, 6),
)


class Gen:
    spare = 0   # levels above those of the global thunks
    def __init__(self, rng, **over):
        self.r = rng
        self.w = dict(BASE)
        self.w.update(over)
        self.tag = 0

    # ----- values
    def num(self):
        return ['i', self.r.randrange(8)]

    def val(self):
        if self.r.random() < self.w['pairs']:
            return ['p', self.num(), self.num()]
        return self.num()

    def content(self, c):
        """content for cell c, perhaps an unnamed articulation (of later cells only)"""
        r = self.r
        if r.random() >= self.w['uvals']:
            return self.val()
        i = self.cells.index(c)
        x = r.random()
        if x < .4 or i + 1 >= len(self.cells):
            u = ['r', self.val()]
        else:
            u = ['a', ':' + r.choice(self.cells[i + 1:])]
        if r.random() < .5:
            u = ['m', u, r.choice(PROJS)]
        return u if r.random() < .7 else ['p', u, self.num()]

    def pick(self, prefix):
        ks = [k for k in self.w if k.startswith(prefix) and self.w[k] > 0]
        return self.r.choices(ks, [self.w[k] for k in ks])[0][len(prefix):]

    def fresh(self, p):
        self.tag += 1
        return '%s%d' % (p, self.tag)

    # ----- codes; code c (1-based) may use globals and codes of lower levels only
    def code(self, c):
        r = self.r
        out, kind = [], {1: 'u'}
        self.depth = 0

        def reg(pref=''):
            rs = [x for x in kind if kind[x] in pref] or ([x for x in kind if kind[x] == 'u'] if pref else list(kind))
            return r.choice(rs) if rs else r.choice(list(kind))

        def dst():
            return r.choice(REGS)

        def name(blk):
            return ['self', self.fresh('x')]

        def instr(inner):
            """one instruction; inner: within a structural block (no demands there)"""
            k = self.pick('i_')
            demands = ('force', 'fmap', 'fabs', 'fcyc', 'nthunk', 'eager', 'branch', 'tryset', 'memo', 'tmap')
            if inner and k in demands:
                k = r.choice(['cell', 'thunk' if c > 1 else 'cell', 'add'])
            d = dst()
            if k == 'force':
                out.append(['force', d, reg('a')]); kind[d] = 'u'
            elif k == 'fcyc':
                out.append(['fcyc', d, reg('a'), self.num()]); kind[d] = 'u'
            elif k in ('fmap', 'fabs'):
                p = r.choice(PROJS)
                out.append([k, d, reg('a'), p]); kind[d] = 'i' if p in ('odd', 'hi', 'inc') else 'u'
            elif k == 'add':
                out.append(['add', d, reg('i'), reg('i')]); kind[d] = 'i'
            elif k == 'proj':
                p = r.choice(PROJS); src = reg('pu')
                out.append(['proj', d, p, src]); kind[d] = 'i' if p in ('odd', 'hi', 'inc') else 'u'
            elif k == 'pair':
                out.append(['pair', d, reg(), reg()]); kind[d] = 'p'
            elif k == 'const':
                out.append(['const', d, self.num()]); kind[d] = 'i'
            elif k == 'glob':
                gs = [g for g, lv in self.globs if lv < c]
                if gs:
                    out.append(['glob', d, ':' + r.choice(gs)]); kind[d] = 'a'
            elif k == 'cell':
                out.append(['cell', d, name(0), reg()]); kind[d] = 'a'
            elif k == 'thunk':
                if c > 1:
                    out.append(['thunk', d, name(0), r.randrange(1, c), reg()]); kind[d] = 'a'
            elif k == 'memo':
                if c > 1:
                    b = r.randrange(1, c); a = reg('i')
                    out.append(['thunk', d, ['memo', b, a], b, a]); kind[d] = 'a'
            elif k == 'sthunk':
                if c > 1:
                    out.append(['sthunk', d, r.randrange(1, c), reg()]); kind[d] = 'a'
            elif k == 'put':
                out.append(['put', d, reg()]); kind[d] = 'a'
            elif k in ('nthunk', 'eager'):
                if c > 1:
                    out.append([k, d, self.fresh('k'), r.randrange(1, c), reg()]); kind[d] = 'a'
            elif k == 'tmap':
                out.append(['tmap', d, reg('a'), r.choice(PROJS)]); kind[d] = 'a'
            elif k == 'tryset':
                out.append(['tryset', d, reg('a'), reg()]); kind[d] = 'i'
            elif k in ('branch', 'ns', 'struct'):
                if self.depth >= 2:
                    return
                self.depth += 1
                before = dict(kind)
                at = len(out)
                out.append(None)
                for _ in range(r.randint(1, 3)):
                    instr(inner or k == 'struct')
                n = len(out) - at - 1
                if k == 'branch':
                    out[at] = [r.choice(['jz', 'jodd']), r.choice([x for x in before]), n]
                    for x in list(kind):
                        if x not in before or kind[x] != before[x]:
                            if x not in before:
                                kind[x] = 'u'
                            elif kind[x] != before[x]:
                                kind[x] = 'u'
                elif k == 'ns':
                    out[at] = ['ns', ['s', r.choice(['l', 'r', self.fresh('n')])] if r.random() < .5 else ['self', self.fresh('n')], n]
                else:
                    out[at] = ['struct', n]
                self.depth -= 1

        n = r.randint(*self.w['body'])
        if r.random() < 0.8:
            d = dst(); out.append(['force', d, 1]); kind[d] = 'u'
        while len(out) < n:
            instr(False)
        out.append(['ret', r.choice(list(kind)) if r.random() < .7 else max(kind)])
        # jumps may not leave the code, blocks are in range by construction
        return out

    # ----- whole programs
    def program(self):
        r, w = self.r, self.w
        ncodes = w['levels']
        below = ncodes - self.spare
        self.cells = ['c%d' % i for i in range(w['cells'])]
        self.thunks = {'t%d' % i: min(below, 1 + i * below // w['thunks']) for i in range(w['thunks'])}
        self.switch = []
        if w['o_kind'] > 0:
            self.switch = ['x0']
        self.globs = [(c, 0) for c in self.cells] + [(x, 1) for x in self.switch] + list(self.thunks.items())
        codes = [self.code(c) for c in range(1, ncodes + 1)]
        init = [['cell', [], c, self.content(c)] for c in reversed(self.cells)]
        init += [['cell', [], x, self.val()] for x in self.switch]
        for t in self.thunks:
            init.append(self.mkthunk(t))
        return codes, init

    def below(self, lv):
        return [g for g, l in self.globs if l < lv]

    def mkthunk(self, t):
        lv = self.thunks[t]
        g = self.below(lv)
        arg = ['a', ':' + self.r.choice(g)] if g and self.r.random() < .9 else self.num()
        return ['thunk', [], t, lv, arg]

    def history(self):
        r = self.r
        n = r.randint(*self.w['ops'])
        out = []
        last = {}
        for _ in range(n):
            k = self.pick('o_')
            if k == 'set':
                c = r.choice(self.cells); v = self.content(c)
                if c in last and r.random() < .3:
                    v = last[c]
                last[c] = v
                out.append(['set', ['a', ':' + c], v])
            elif k == 'recell':
                c = r.choice(self.cells); v = last.get(c, self.val()) if r.random() < .4 else self.val()
                last[c] = v
                out.append(['cell', [], c, v])
            elif k == 'newcell':
                out.append(['cell', [], r.choice(['n0', 'n1']), self.val()])
            elif k == 'rethunk':
                t = r.choice(list(self.thunks))
                prev = [o for o in self.init + out if o[0] == 'thunk' and o[2] == t and not o[1]]
                out.append(prev[-1] if prev and r.random() < .4 else self.mkthunk(t))
            elif k == 'force':
                out.append(['force', ['a', ':' + r.choice(list(self.thunks) + self.switch)]])
            elif k == 'touch':   # set something, then demand everything once
                c = r.choice(self.cells)
                out.append(['set', ['a', ':' + c], self.val()])
                ts = list(self.thunks); r.shuffle(ts)
                out += [['force', ['a', ':' + t]] for t in ts]
            elif k in ('fmap', 'fabs'):
                out.append([k, ['a', ':' + r.choice(list(self.thunks) + self.cells)], r.choice(PROJS)])
            elif k == 'fcyc':
                out.append(['fcyc', ['a', ':' + r.choice(list(self.thunks))], self.num()])
            elif k == 'kind' and self.switch:
                x = r.choice(self.switch)
                if r.random() < .5:
                    out.append(['cell', [], x, self.val()])
                else:
                    out.append(['thunk', [], x, 1, ['a', ':' + r.choice(self.cells)]])
            elif k == 'scell':
                out.append(['scell', [], self.val()])
            elif k == 'sthunk':
                lv = r.randint(1, self.w['levels'])
                out.append(['sthunk', [], lv, ['a', ':' + r.choice(self.below(lv))]])
            elif k == 'nscell':
                out.append(['cell', [r.choice(['l', 'r'])] * r.randint(1, 2), r.choice(self.cells), self.val()])
            elif k == 'nsthunk':
                t = r.choice(list(self.thunks)); o = list(self.mkthunk(t)); o[1] = [r.choice(['l', 'r'])] * r.randint(1, 2)
                out.append(o)
                out.append(['force', ['a', '/' + '/'.join(o[1]) + ':' + t]])
            elif k == 'fform':   # demand an unnamed articulation
                x = r.random()
                b = ['a', ':' + r.choice(list(self.thunks) + self.cells)]
                lv = r.randint(1, self.w['levels'])
                a = ['r', self.val()] if x < .2 else ['m', b, r.choice(PROJS)] if x < .6 else ['n', lv, ['a', ':' + r.choice(self.below(lv))], 'z%d' % lv]
                if r.random() < .3:
                    a = ['m', a, r.choice(PROJS)]
                out.append(r.choice([['force', a], ['force', a], ['fmap', a, r.choice(PROJS)], ['fabs', a, r.choice(PROJS)], ['fcyc', a, self.num()]]))
            elif k == 'badset':
                out.append(['set', r.choice([['r', self.num()]] + [['a', ':' + t] for t in self.thunks]), self.val()])
            elif k == 'inner':   # set or demand an inner node, by the name it would have
                t = r.choice(list(self.thunks)); lv = self.thunks[t]
                tags = [i[2][1] for i in self.codes[lv - 1] if i[0] in ('cell', 'thunk') and i[2][0] == 'self']
                cells = [i[2][1] for i in self.codes[lv - 1] if i[0] == 'cell' and i[2][0] == 'self']
                thunks = [i for i in self.codes[lv - 1] if i[0] == 'thunk' and i[2][0] == 'self']
                x = r.random()
                if self.w['o_kind'] > 0 and r.random() < .15 and (cells or thunks):   # of the other kind
                    tag = r.choice(cells + [i[2][1] for i in thunks])
                    nm = '<%s,%s>' % (t, tag)
                    out.append(['thunk', [], nm, 1, ['a', ':' + r.choice(self.cells)]] if tag in cells else ['cell', [], nm, self.val()])
                    if r.random() < .3:
                        out.append(['force', ['a', ':' + nm]])
                    if r.random() < .7:
                        out += [['force', ['a', ':' + t]], ['force', ['a', ':' + nm]]]
                elif thunks and x < .35:   # allocate what the body allocates, with another argument
                    i = r.choice(thunks)
                    arg = ['a', ':' + r.choice(self.below(i[3]))] if r.random() < .6 and self.below(i[3]) else self.val()
                    out.append(['thunk', [], '<%s,%s>' % (t, i[2][1]), i[3], arg])
                    if r.random() < .7:
                        out += [['force', ['a', ':' + t]], ['force', ['a', ':<%s,%s>' % (t, i[2][1])]]]
                elif cells and x < .45:
                    out.append(['cell', [], '<%s,%s>' % (t, r.choice(cells)), self.val()])
                elif cells and x < .7:
                    out.append(['set', ['a', ':<%s,%s>' % (t, r.choice(cells))], self.val()])
                elif tags:
                    out.append(['force', ['a', ':<%s,%s>' % (t, r.choice(tags))]])
        return out

    def trace(self, id, **flags):
        self.codes, self.init = self.program()
        t = dict(id=id, codes=self.codes, ops=self.init + self.history())
        t.update(flags)
        return t


class GenCyc(Gen):
    """Cyclic programs whose cyclic demands all re-enter the entry thunk e."""
    spare = 1
    def program(self):
        codes, init = Gen.program(self)
        top = len(codes)
        self.thunks['e'] = top
        init.append(['thunk', [], 'e', top, self.num()])
        r = self.r
        # the entry demands some of the others; these re-enter it
        body = []
        ts = [t for t in self.thunks if t != 'e']
        for i, t in enumerate(r.sample(ts, min(len(ts), r.randint(1, 3)))):
            d = 2 + i
            body += [['glob', d, ':' + t], ['force', d, d]]
        body += [['glob', 7, ':' + r.choice(self.cells)], [r.choice(['force', 'fmap']), 7, 7, r.choice(PROJS)]]
        if body[-1][0] == 'force':
            body[-1] = body[-1][:3]
        if r.random() < .6:
            body += [[r.choice(['jodd', 'jz']), 7, 1], ['add', 2, 2, 3]]
        body += [[r.choice(['add', 'pair']), 8, 2, r.choice([3, 7])], ['ret', r.choice([8, 8, 2])]]
        codes[top - 1] = body
        for c in range(top - 1):
            code = codes[c]
            for _ in range(r.choice([0, 1, 1, 2])):
                d = r.choice(REGS)
                at = r.randint(0, max(0, len(code) - 1))
                ins = [['glob', d, ':e'], ['fcyc', d, d, self.num()]]
                if any(i[0] in ('jz', 'jodd', 'ns', 'struct') for i in code):
                    at = 0 if r.random() < .5 else len(code) - 1
                    if any(i[0] in ('jz', 'jodd', 'ns', 'struct') and j + i[-1] >= at > j for j, i in enumerate(code)):
                        at = 0
                code[at:at] = ins
                if at == 0 and d == 1:
                    pass
        return codes, init

    def history(self):
        r = self.r
        out = []
        for _ in range(r.randint(*self.w['ops'])):
            x = r.random()
            c = r.choice(self.cells)
            if x < .45:
                out.append(['set', ['a', ':' + c], self.val()])
            elif x < .55:
                out.append(['cell', [], c, self.val()])
            elif x < .62:
                t = r.choice([t for t in self.thunks if t != 'e'])
                out.append(self.mkthunk(t) if r.random() < .6 else [o for o in self.init + out if o[0] == 'thunk' and o[2] == t][-1])
            elif x < .67:
                out.append(['thunk', [], 'e', self.thunks['e'], self.num()])
            elif x < .9:
                out.append(['force', ['a', ':e']])
            else:
                out.append(['fcyc', ['a', ':e'], self.num()])
        return out

    def below(self, lv):
        return [g for g, l in self.globs if l < lv and g != 'e']


class GenOnce(Gen):
    """Arbitrary cyclic demands among all global thunks; one demand per program."""
    def program(self):
        codes, init = Gen.program(self)
        r = self.r
        for c, code in enumerate(codes):
            for _ in range(r.choice([0, 1, 1, 2])):
                t = r.choice(list(self.thunks))
                d = r.choice(REGS)
                k = ['fcyc', d, d, self.num()] if r.random() < .85 else r.choice([['force', d, d], ['fmap', d, d, 'inc']])
                at = 0 if any(i[0] in ('jz', 'jodd', 'ns', 'struct') for i in code) else r.randint(0, len(code) - 1)
                code[at:at] = [['glob', d, ':' + t], k]
        return codes, init

    def history(self):
        r = self.r
        t = r.choice(list(self.thunks))
        return [['force', ['a', ':' + t]] if r.random() < .6 else ['fcyc', ['a', ':' + t], self.num()]]


class GenTurn(Gen):
    """Plain demands of any thunk, itself included, where a cell says so: edits make them cyclic, or not."""
    def program(self):
        codes, init = Gen.program(self)
        r = self.r
        for code in codes:
            if r.random() < .6:
                d = r.choice(REGS)
                code[0:0] = [['glob', d, ':' + r.choice(self.cells)], ['fmap', d, d, r.choice(['odd', 'hi', 'id'])], [r.choice(['jz', 'jz', 'jodd']), d, 2],
                             ['glob', d, ':' + r.choice(list(self.thunks))], r.choice([['force', d, d], ['force', d, d], ['fmap', d, d, 'inc']])]
        # at first, few cells say so
        for o in init:
            if o[0] == 'cell' and r.random() < .7:
                o[3] = ['i', 0]
        return codes, init

    def history(self):
        out = []
        for o in Gen.history(self):
            out.append(o)
            if o[0] == 'set' and self.r.random() < .6:
                out.append(['force', ['a', ':' + self.r.choice(list(self.thunks))]])
        return out


class GenList(Gen):
    """Pipelines of recursive list functions over an edited list; cells l0, l1, .. hold [x, next] or 0."""
    def program(self):
        r = self.r
        self.n = r.randint(*self.w['length'])
        codes = []

        def alloc(d, c, a):   # the recursive call, under a name made from its argument
            x = r.random()
            if x < .7:
                return [['thunk', d, ['memo', c, a], c, a]]
            if x < .85:
                return [['sthunk', d, c, a]]
            return [['nthunk', d, self.fresh('k'), c, a]] if x < .9 else \
                   [['ns', ['s', 'n%d' % c], 1], ['thunk', d, ['memo', c, a], c, a]]

        def cons(d, x, t):
            k = r.random()
            if k < .7:
                return [['cell', 7, ['self', 'c'], t], ['pair', d, x, 7]]
            return [['put', 7, t], ['pair', d, x, 7]] if k < .8 else [['cell', 7, ['memo', 9, 3], t], ['pair', d, x, 7]]

        def listfn(c):
            kind = r.choice(['map', 'filter', 'sum', 'lazymap', 'take', 'rev'])
            head = [['force', 2, 1], ['jpair', 2, 1], ['ret', 2], ['proj', 3, 'snd', 2]]
            hd = [['proj', 5, 'fst', 2]]
            rec = alloc(4, c, 3)
            if kind == 'map':
                return head + rec + hd + [['proj', 5, r.choice(['inc', 'odd', 'hi']), 5], ['force', 6, 4]] + cons(8, 5, 6) + [['ret', 8]]
            if kind == 'lazymap':
                rec = [['thunk', 4, ['memo', c, 3], c, 3]]
                return head + rec + hd + [['proj', 5, r.choice(['inc', 'odd', 'hi']), 5], ['pair', 8, 5, 4], ['ret', 8]]
            if kind == 'filter':
                return head + rec + hd + [['force', 6, 4], ['jodd', 5, 1], ['ret', 6]] + cons(8, 5, 6) + [['ret', 8]]
            if kind == 'sum':
                return head + rec + hd + [['force', 6, 4], ['add', 6, 6, 5], ['ret', 6]]
            if kind == 'take':   # until the first even element
                return head + hd + [['jodd', 5, 2], ['const', 6, ['i', 0]], ['ret', 6]] + rec + [['force', 6, 4]] + cons(8, 5, 6) + [['ret', 8]]
            # rev: argument is (list art, accumulator art or 0)
            return [['proj', 2, 'fst', 1], ['force', 2, 2], ['proj', 6, 'snd', 1], ['jpair', 2, 2], ['force', 6, 6], ['ret', 6],
                    ['proj', 3, 'snd', 2], ['proj', 5, 'fst', 2], ['pair', 8, 5, 6], ['cell', 7, ['memo', 8, 3], 8],
                    ['pair', 8, 3, 7], ['thunk', 4, ['memo', c, 3], c, 8], ['force', 4, 4], ['ret', 4]]

        ns = r.randint(1, 3)
        fns = [listfn(c) for c in range(1, ns + 1)]
        codes = fns
        # entry: the stages one after the other, each under a name of its own
        # a stage takes the previous stage's thunk as its list
        entry, prev = [], 1
        regs = [2, 3, 4, 5, 6, 8]
        for c in range(1, ns + 1):
            d = regs[c]
            isrev = fns[c - 1][0][0] == 'proj'
            if isrev:
                entry += [['const', 7, ['i', 0]], ['pair', 8, prev, 7]]
            entry += [['thunk', d, ['self', 's%d' % c], c, 8 if isrev else prev]]
            prev = d
        entry += [['force', 8, prev], ['ret', 8]]
        codes.append(entry)
        self.entry = ns + 1
        init = []
        for i in range(self.n, -1, -1):
            init.append(['cell', [], 'l%d' % i, ['i', 0] if i == self.n else ['p', self.num(), ['a', ':l%d' % (i + 1)]]])
        init.append(['thunk', [], 'top', self.entry, ['a', ':l0']])
        return codes, init

    def history(self):
        r = self.r
        out = []
        for _ in range(r.randint(*self.w['ops'])):
            x = r.random()
            i = r.randrange(self.n + 1)
            if x < .45:
                v = ['i', 0] if i == self.n or r.random() < .1 else ['p', self.num(), ['a', ':l%d' % r.randint(i + 1, min(self.n, i + 2))]]
                out.append(['set' if r.random() < .8 else 'cell'] + ([['a', ':l%d' % i], v] if False else []))
                out[-1] = ['set', ['a', ':l%d' % i], v] if r.random() < .8 else ['cell', [], 'l%d' % i, v]
            elif x < .5:
                out.append(['thunk', [], 'top', self.entry, ['a', ':l%d' % r.randint(0, min(2, self.n))]])
            else:
                out.append(['force', ['a', ':top']])
        out.append(['force', ['a', ':top']])
        return out


class GenFresh(Gen):
    """Programs that are built once and then only demanded."""
    def history(self):
        r = self.r
        out = []
        for _ in range(r.randint(4, 10)):
            t = r.choice(list(self.thunks))
            x = r.random()
            if x < .7:
                out.append(['deep', ['a', ':' + t], r.randint(1, 3)])
            elif x < .8:
                out.append(['deep', ['m', ['a', ':' + r.choice(list(self.thunks) + self.cells)], r.choice(PROJS)], 2])
            elif x < .85:
                out.append(['deep', ['r', self.val()], 1])
            elif x < .9:
                lv = r.randint(1, self.w['levels'])
                out.append(['deep', ['n', lv, ['a', ':' + r.choice(self.below(lv))], 'z%d' % lv], 2])
            elif x < .95 and self.w.get('nset'):
                out.append(['nset', ['a', ':' + r.choice(self.cells + list(self.thunks))], self.val()])
            else:
                out.append(['deep', ['a', ':' + r.choice(self.cells)], 2])
        return out


class GenDeepCyc(GenCyc):
    """A chain of many thunks from the entry thunk e, the last of which re-enters it."""
    def program(self):
        r = self.r
        n = r.randint(8, 32)
        self.cells = ['c0', 'c1', 'c2', 'c3']
        init = [['cell', [], c, self.num()] for c in self.cells]
        # 1: the next thunk and a cell;  2: re-enters e;  3: as 1, but re-enters e itself if the cell is odd;  4: e
        codes = [
            [['proj', 2, 'fst', 1], ['force', 2, 2], ['proj', 3, 'snd', 1], ['force', 3, 3], ['add', 2, 2, 3], ['ret', 2]],
            [['glob', 2, ':e'], ['fcyc', 2, 2, self.num()], ['force', 3, 1]] + r.choice([[['ret', 3]], [['add', 2, 2, 3], ['ret', 2]]]),
            [['proj', 3, 'snd', 1], ['force', 3, 3], ['jodd', 3, 4], ['glob', 2, ':e'], ['fcyc', 2, 2, self.num()], ['add', 2, 2, 3], ['ret', 2],
             ['proj', 2, 'fst', 1], ['force', 2, 2], ['ret', 2]],
            [['glob', 2, ':t0'], ['force', 2, 2], ['glob', 3, ':c0'], ['force', 3, 3], ['add', 2, 2, 3], ['ret', 2]],
        ]
        self.thunks = {}
        last = ['thunk', [], 't%d' % n, 2, ['a', ':' + r.choice(self.cells)]]
        init.append(last)
        for i in range(n - 1, -1, -1):
            init.append(['thunk', [], 't%d' % i, 1 if r.random() < .9 else 3, ['p', ['a', ':t%d' % (i + 1)], ['a', ':' + r.choice(self.cells)]]])
        self.thunks = {'t%d' % n: 2, 'e': 4}
        self.last = last
        init.append(['thunk', [], 'e', 4, self.num()])
        return codes, init

    def mkthunk(self, t):
        return ['thunk', [], t, 2, ['a', ':' + self.r.choice(self.cells)]]

    def val(self):
        return self.num()


class GenDeep(GenDeepCyc):
    """A chain of many thunks, each of which demands the next."""
    def program(self):
        codes, init = GenDeepCyc.program(self)
        codes[1] = [['force', 3, 1], ['ret', 3]]
        codes[2][3:5] = [['proj', 2, 'snd', 1], ['force', 2, 2]]
        self.links = [o for o in init if o[0] == 'thunk' and o[2] not in ('e', self.last[2])]
        return codes, init

    def history(self):
        r = self.r
        out = []
        for _ in range(r.randint(*self.w['ops'])):
            x = r.random()
            if x < .45:
                out.append(['set', ['a', ':' + r.choice(self.cells)], self.val()])
            elif x < .52:
                out.append(self.mkthunk(self.last[2]))
            elif x < .62:
                o = r.choice(self.links)
                out.append(o[:4] + [['p', o[4][1], ['a', ':' + r.choice(self.cells)]]])
            else:
                out.append(['force', ['a', ':e' if x < .85 else ':' + r.choice(self.links)[2]]])
        return out


class GenFan(Gen):
    """Thunks with many observations, and cells and thunks that many observe."""
    def program(self):
        r = self.r
        n = r.randint(10, 36)
        self.cells = ['c%d' % i for i in range(n)]
        init = [['cell', [], c, self.num()] for c in self.cells]
        codes = [
            # 1: what a cell holds, perhaps only its parity;  2: a cell, another one if it is odd
            [['force', 2, 1]] + ([['proj', 2, r.choice(['odd', 'hi', 'inc']), 2]] if r.random() < .6 else []) + [['ret', 2]],
            [['proj', 2, 'fst', 1], ['force', 2, 2], ['jodd', 2, 2], ['proj', 3, 'snd', 1], ['force', 2, 3], ['ret', 2]],
        ]
        srcs, self.thunks = [], {}
        for i, c in enumerate(self.cells):
            x = r.random()
            if x < .6:
                srcs.append(c)
                continue
            t = 'm%d' % i
            if x < .85:
                init.append(['thunk', [], t, 1, ['a', ':' + c]])
            else:
                init.append(['thunk', [], t, 2, ['p', ['a', ':' + c], ['a', ':' + r.choice(self.cells)]]])
            self.thunks[t] = 0
            srcs.append(t)
        # 3: the hub reads all of them
        if r.random() < .5:
            r.shuffle(srcs)
        body = [['const', 2, ['i', 0]]]
        for i, s in enumerate(srcs):
            body += [['glob', 3, ':' + s]]
            body += [['force', 3, 3]] if r.random() < .85 else [['fmap', 3, 3, r.choice(['odd', 'hi'])]]
            if r.random() < .1:
                body += [['jz', 3, 2], ['glob', 4, ':' + r.choice(srcs)], ['force', 4, 4]]
            body += [['add', 2, 2, 3]]
        codes.append(body + [['ret', 2]])
        init.append(['thunk', [], 'hub', 3, self.num()])
        # 4: many read one cell, or the hub;  5: the top reads these
        codes.append([['glob', 2, ':' + r.choice([self.cells[0], 'hub', srcs[-1]])], ['force', 2, 2], ['add', 2, 2, 1], ['ret', 2]])
        k = r.randint(10, 30)
        body = [['const', 2, ['i', 0]]]
        for i in range(k):
            init.append(['thunk', [], 'r%d' % i, 4, self.num()])
            body += [['glob', 3, ':r%d' % i], ['force', 3, 3], ['add', 2, 2, 3]]
            self.thunks['r%d' % i] = 0
        codes.append(body + [['ret', 2]])
        init.append(['thunk', [], 'top', 5, self.num()])
        return codes, init

    def history(self):
        r = self.r
        out = [['force', ['a', r.choice([':top', ':hub'])]]]
        for _ in range(r.randint(4, 7)):
            for _ in range(r.choice([1, 1, 2])):
                c = r.choice(self.cells)
                out.append(['set', ['a', ':' + c], self.num()] if r.random() < .8 else ['cell', [], c, self.num()])
            x = r.random()
            out.append(['force', ['a', ':' + (r.choice(list(self.thunks)) if x < .25 else 'hub' if x < .6 else 'top')]])
        return out + [['force', ['a', ':top']]]
