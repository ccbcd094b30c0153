#!/usr/bin/env python3
"""Non-vacuity of the engine specification: each change of Adapton.tla must make TLC find a history on
which some property fails.  Not a check; run by hand: python3 tools/spec_mutants.py [name...]"""
import os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine_props, vlib
MUTANTS = {
    # dirtying
    'no-transitive-dirtying': ('IN DirtyObservers(MarkEdges(tb, ss, l, "obs"), (work \\ {l}) \\cup ss,', 'IN DirtyObservers(MarkEdges(tb, ss, l, "obs"), (work \\ {l}),'),
    'allocators-stay-clean': ('t2 == MarkEdges(d1.tb, as, l, "alloc")', 't2 == d1.tb'),
    'allocators-observers-stay-clean': ('IN DirtyObservers(t2, as, d1.ds', 'IN DirtyObservers(t2, {}, d1.ds'),
    'projections-never-dirty': ('\\/ e.proj = "" \\/ e.proj = "abs" \\/ tb[e.loc].k # "mut"\n  \\/ Proj(e.proj, tb[e.loc].val) # e.val', 'e.proj = "" \\/ e.proj = "abs" \\/ tb[e.loc].k # "mut"'),
    'projections-as-full': ('\\/ e.proj = "" \\/ e.proj = "abs" \\/ tb[e.loc].k # "mut"\n  \\/ Proj(e.proj, tb[e.loc].val) # e.val', 'TRUE'),
    'set-same-dirties': ('IF m.table[l].val = v THEN m\n  ELSE LET', 'LET'),
    # allocation
    'reallocation-keeps-result': ('[m.table EXCEPT ![l].arg = a, ![l].res = <<>>]', '[m.table EXCEPT ![l].arg = a]'),
    'reallocation-dirties-none': ('d    == IF case = "diff" THEN DirtyAlloc(t2, l)', 'd    == IF case = "other" THEN DirtyAlloc(t2, l)'),
    'kind-change-dirties-none': ('d  == DirtyAlloc([r.table EXCEPT ![l] = MutNode(v)], l)', 'd  == [tb |-> [r.table EXCEPT ![l] = MutNode(v)], ds |-> {}]'),
    'thunks-in-current-namespace': ('!.path = n.path]\n  IN StartBody', '!.path = m.path]\n  IN StartBody'),
    'namespace-not-restored': ('!.path = t.path0]', '!.path = @]'),
    # running
    'edges-pile-up': ('!.table[l].succs = <<>>, !.path = n.path]\n  IN StartBody(Push(m2, [k |-> "frame", loc |-> l, succs |-> <<>>,', '!.table[l].succs = <<>>, !.path = n.path]\n  IN StartBody(Push(m2, [k |-> "frame", loc |-> l, succs |-> Succs(m.table, l),'),
    'no-edges': ('IF dup \\/ pure THEN m ELSE AddSucc', 'IF TRUE THEN m ELSE AddSucc'),
    'old-result-delivered': ('!.table[t.loc].res = <<v>>,', '!.table[t.loc].res = IF @ = <<>> THEN <<v>> ELSE @,'),
    # cleaning
    'no-cutoff': ('DeliverC(End(End(Pop(m))), v # t.cmp)', 'DeliverC(End(End(Pop(m))), TRUE)'),
    'always-cutoff': ('DeliverC(End(End(Pop(m))), v # t.cmp)', 'DeliverC(End(End(Pop(m))), FALSE)'),
    'cleaned-stays-dirty': ('LET m1 == [m EXCEPT !.table[t.loc].succs[t.i].dirty = FALSE]', 'LET m1 == m'),
    'allocation-edges-clean': ('CASE e.eff = "alloc" -> DeliverC(m, e.proj # "struct")', 'CASE e.eff = "alloc" -> DeliverC(m, FALSE)'),
    'value-against-cache': ('DeliverC(Pop(m), m.table[t.loc].res[1] # t.cmp)', 'DeliverC(Pop(m), FALSE)'),
    'first-edge-only': ('IF t.i > Len(t.edges) THEN', 'IF t.i > (IF t.edges = <<>> THEN 0 ELSE 1) THEN'),
    'last-edge-first': ('[t EXCEPT !.i = @ + 1])\n    [] t.k = "force" -> Deliver', '[t EXCEPT !.i = Len(t.edges) + 1])\n    [] t.k = "force" -> Deliver'),
    'hits-are-not-cleaned': ('ELSE Push(m1, [k |-> "clean", loc |-> l, i |-> 1, edges |-> n.succs, cmp |-> n.res[1]])', 'ELSE Deliver(m1, n.res[1])'),
    'misses-always': ('IN IF n.res = <<>> THEN Produce(m1, l)', 'IN IF TRUE THEN Produce(m1, l)'),
}
KINDS = {'value', 'extra-run', 'ran-twice', 'undemanded-run', 'run-order', 'out-of-date', 'edges', 'inverse', 'clean-edge-to-dirty',
         'stale-clean-node', 'not-quiet'}


def run(name, scratch):
    old, new = MUTANTS[name]
    d = os.path.join(scratch, name)
    shutil.copytree(vlib.SPEC, d)
    p = os.path.join(d, 'Adapton.tla')
    t = open(p).read()
    assert t.count(old) == 1, (name, t.count(old))
    open(p, 'w').write(t.replace(old, new))
    vlib.SPEC, keep = d, vlib.SPEC
    try:
        cfg = ('CONSTANTS MaxLen = 4 Fams = {%s} Purity = TRUE Export = FALSE\nINIT Init\nNEXT Next\nVIEW View\nINVARIANT Holds\nCHECK_DEADLOCK FALSE\n'
               % ', '.join(str(engine_props.FAMS[f]) for f in engine_props.ALL))
        out = vlib.tlc('MCEngine', cfg, scratch)['out']
    finally:
        vlib.SPEC = keep
    if 'Invariant Holds is violated' in out:
        kinds = sorted(set(re.findall(r'<<"([a-z-]+)"', out.split('/\\ bad = {')[-1].split('/\\')[0])) & KINDS)
        return 'found: ' + ', '.join(kinds)
    if 'Model checking completed. No error' in out:
        return 'MISSED'
    return 'error: ' + (re.search(r'Error: (.*)', out) or [out[-200:]] * 2)[1][:100]


if __name__ == '__main__':
    scratch = tempfile.mkdtemp()
    for name in sys.argv[1:] or MUTANTS:
        print('%-34s %s' % (name, run(name, scratch)), flush=True)
    shutil.rmtree(scratch)
