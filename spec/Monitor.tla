------------------------------- MODULE Monitor -------------------------------
(***************************************************************************)
(* What the properties say about one editor operation, given the log of    *)
(* the bodies it ran (see Adapton.tla) and a snapshot of the graph after    *)
(* it.  The same operators judge the engine specification (MCEngine.tla)    *)
(* and the real engine (Trace.tla).                                         *)
(*                                                                         *)
(* Monitor state w:                                                         *)
(*   store : the abstract store, changed only by from-scratch evaluation   *)
(*   cur   : location -> [k, val, ver, struct]: what is known about its     *)
(*           current content (for thunks: value of the last run), and how    *)
(*           often its content changed (cells: content, thunks: argument)    *)
(*   last  : location -> record of the last completed run since the thunk    *)
(*           was allocated with its present argument                         *)
(*   pure  : is the purity optimization on?                                  *)
(***************************************************************************)
EXTENDS Scratch

InitW(pure) == [store |-> <<>>, cur |-> <<>>, last |-> <<>>, pure |-> pure]

Drop(f, l) == [x \in DOMAIN f \ {l} |-> f[x]]

(* Location l was allocated (or set) with content v as a node of kind k.    *)
Wrote(w, k, l, v, st) ==
  IF l \notin DOMAIN w.cur
  THEN [w EXCEPT !.cur = @ @@ (l :> [k |-> k, val |-> IF k = "cell" THEN v ELSE <<>>, arg |-> v, ver |-> 1, struct |-> st])]
  ELSE LET c == w.cur[l] IN
    IF c.k = k /\ c.arg = v THEN w
    ELSE [w EXCEPT !.cur[l] = [k |-> k, val |-> IF k = "cell" THEN v ELSE c.val, arg |-> v, ver |-> c.ver + 1, struct |-> st],
                   !.last = IF l \in DOMAIN @ THEN Drop(@, l) ELSE @]

KindOfAlloc(tag) == IF tag \in {"cell", "scell"} THEN "cell" ELSE "thunk"
IsStructTag(tag) == tag \in {"scell", "sthunk"}

(* The location whose full value a demand of art observes ("" if none).     *)
RECURSIVE BaseLoc(_)
BaseLoc(a) == CASE a[1] = "a" -> a[2] [] a[1] = "m" -> BaseLoc(a[2]) [] OTHER -> ""

(* ----- Is re-running l justified? ----------------------------------------- *)
ObsChanged(w, o) ==
  LET c == w.cur[o.loc] IN
  CASE o.proj = ""    -> c.val # o.val
    [] o.proj = "abs" -> c.ver # o.ver
    [] OTHER          -> c.k # "cell" \/ Proj(o.proj, c.val) # o.val

Justified(w, l) ==
  \/ l \notin DOMAIN w.last
  \/ \E i \in DOMAIN w.last[l].obs : ObsChanged(w, w.last[l].obs[i])
  \/ \E i \in DOMAIN w.last[l].allocs :
       LET a == w.last[l].allocs[i] IN w.cur[a.loc].ver # a.ver

(* ----- Folding over the log of one operation ------------------------------- *)
(* g: [w, st (stack of open bodies), runs (completed, in order), began,       *)
(*     unjust (unjustified runs), twice]                                       *)
InitG(w) == [w |-> w, st |-> <<>>, runs |-> <<>>, began |-> <<>>, unjust |-> {}, twice |-> {}]

NodeIxs(g) == { i \in DOMAIN g.st : g.st[i].loc # "" }

EntryB(g, e) ==
  LET l == e[2] IN
  [g EXCEPT !.st = Append(@, [loc |-> l, code |-> e[3], arg |-> e[4], me |-> e[5],
                              log |-> <<>>, obs |-> <<>>, allocs |-> <<>>]),
            !.began = IF l = "" THEN @ ELSE Append(@, l),
            !.unjust = IF l # "" /\ ~Justified(g.w, l) THEN @ \cup {l} ELSE @,
            !.twice = IF l # "" /\ l \in ToSet(g.began) THEN @ \cup {l} ELSE @]

ObsOf(w, e) ==
  LET l == BaseLoc(e[3]) IN
  IF l = "" \/ l \notin DOMAIN w.cur THEN <<>>
  ELSE LET c == w.cur[l]
           p == IF e[2] \in {"fmap", "fabs"} /\ e[3][1] = "a" /\ c.k = "cell" /\ ~(c.struct /\ w.pure)
                THEN (IF e[2] = "fmap" THEN e[4] ELSE "abs") ELSE ""
       IN << [loc |-> l, proj |-> p, val |-> IF p \in {"", "abs"} THEN c.val ELSE Proj(p, c.val), ver |-> c.ver] >>

Noted(g, e, obs, allocs) ==
  IF NodeIxs(g) = {} THEN g
  ELSE LET i == MaxOf(NodeIxs(g)) IN
       [g EXCEPT !.st[i].log = Append(@, e), !.st[i].obs = @ \o obs, !.st[i].allocs = @ \o allocs]

EntryO(g, e) == Noted(g, e, ObsOf(g.w, e), <<>>)

EntryA(g, e) ==
  LET w == Wrote(g.w, KindOfAlloc(e[2]), e[3], e[4], IsStructTag(e[2]))
  IN Noted([g EXCEPT !.w = w], e, <<>>, << [loc |-> e[3], ver |-> w.cur[e[3]].ver, struct |-> IsStructTag(e[2])] >>)

EntryX(g, e) ==
  LET t == g.st[Len(g.st)]
      g1 == [g EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
      rec == [loc |-> t.loc, code |-> t.code, arg |-> t.arg, me |-> t.me, log |-> t.log, val |-> e[2],
              obs |-> t.obs, allocs |-> t.allocs]
  IN IF t.loc = "" THEN g1
     ELSE [g1 EXCEPT !.w.last = PutC(@, t.loc, rec),
                     !.w.cur = IF t.loc \in DOMAIN @ THEN [@ EXCEPT ![t.loc].val = e[2]] ELSE @,
                     !.runs = Append(@, rec)]

Entry(g, e) ==
  CASE e[1] = "b" -> EntryB(g, e) [] e[1] = "o" -> EntryO(g, e)
    [] e[1] = "a" -> EntryA(g, e) [] e[1] = "x" -> EntryX(g, e)

RECURSIVE FoldLog(_, _, _)
FoldLog(g, lg, i) == IF i > Len(lg) THEN g ELSE FoldLog(Entry(g, lg[i]), lg, i + 1)

(* The editor's own writes.                                                   *)
EditorWrites(w, op, out) ==
  CASE op[1] = "cell"   -> Wrote(w, "cell", out[2], op[4], FALSE)
    [] op[1] = "scell"  -> Wrote(w, "cell", out[2], op[3], TRUE)
    [] op[1] = "thunk"  -> Wrote(w, "thunk", out[2], op[5], FALSE)
    [] op[1] = "sthunk" -> Wrote(w, "thunk", out[2], op[4], TRUE)
    [] op[1] = "set"    -> Wrote(w, "cell", op[2][2], op[3], FALSE)
    [] OTHER            -> w

(* ----- Judging one operation ------------------------------------------------ *)
(* q: the from-scratch evaluation of op; g: the folded log.                      *)
IsDemand(op) == op[1] \in {"force", "fmap", "fabs", "fcyc", "deep"}

SameBody(r, b) == r.loc = b.loc /\ r.code = b.code /\ r.arg = b.arg /\ r.log = b.log /\ r.val = b.val

(* Are the runs a subsequence of the from-scratch bodies (by location)?          *)
RECURSIVE SubSeqLoc(_, _)
SubSeqLoc(a, b) ==
  IF a = <<>> THEN TRUE
  ELSE IF b = <<>> THEN FALSE
  ELSE IF a[1].loc = b[1].loc THEN SubSeqLoc(Tail(a), Tail(b)) ELSE SubSeqLoc(a, Tail(b))

ScratchLocs(q) == { q.s.bodies[i].loc : i \in DOMAIN q.s.bodies }

(* C01: the value; and every body that ran saw and did the same.                 *)
BadValue(q, out) == IF out # ScratchOut(q) THEN {<<"value", ScratchOut(q), out>>} ELSE {}
(* C02 *)
BadExtra(g) == {<<"extra-run", l>> : l \in g.unjust} \cup {<<"ran-twice", l>> : l \in g.twice}
(* C03 *)
BadDemand(op, q, g) ==
  {<<"undemanded-run", l>> : l \in ToSet(g.began) \ (IF IsDemand(op) THEN ScratchLocs(q) ELSE {})}
  \cup (IF IsDemand(op) /\ ~SubSeqLoc(g.runs, q.s.bodies)
        THEN {<<"run-order", [i \in DOMAIN g.runs |-> g.runs[i].loc]>>} ELSE {})
(* C07, C08, C11: after a demand, everything it demands is up to date: the last   *)
(* run of each such thunk saw, allocated and returned what a new one would.        *)
BadFresh(q, g) ==
  { <<"out-of-date", q.s.bodies[i].loc>> : i \in
      { j \in DOMAIN q.s.bodies :
          LET b == q.s.bodies[j] IN
          ~(b.loc \in DOMAIN g.w.last /\ SameBody(g.w.last[b.loc], b)) } }

(* ----- Judging a snapshot of the graph (C04) ---------------------------------- *)
(* snap: sequence of [loc, k, succs: seq of <<loc, eff, dirty>>,                    *)
(*                    preds: seq of <<loc, eff>>, res: has a result]                 *)
RECURSIVE Dedup(_, _)
Dedup(s, seen) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] \in seen THEN Dedup(Tail(s), seen) ELSE <<s[1]>> \o Dedup(Tail(s), seen \cup {s[1]})

(* Expected edges, in order; edges on structural nodes may be omitted.              *)
RECURSIVE EdgesOf(_, _, _)
EdgesOf(w, log, i) ==
  IF i > Len(log) THEN <<>>
  ELSE LET e == log[i]
           l == IF e[1] = "o" THEN BaseLoc(e[3]) ELSE e[3]
       IN (IF l = "" THEN <<>> ELSE << <<l, IF e[1] = "o" THEN "obs" ELSE "alloc">> >>) \o EdgesOf(w, log, i + 1)

(* Only the purity optimization may leave out edges, and only on structural nodes;    *)
(* allocating a structural thunk that exists already is no effect.                    *)
OptionalEdge(w, e) ==
  /\ e[1] \in DOMAIN w.cur /\ w.cur[e[1]].struct
  /\ w.pure \/ (e[2] = "alloc" /\ w.cur[e[1]].k = "thunk")
PairsOf(succs) == [i \in DOMAIN succs |-> <<succs[i][1], succs[i][2]>>]
FullObs(w, rec, l) == \E i \in DOMAIN rec.obs : rec.obs[i].loc = l /\ rec.obs[i].proj = ""
PartObs(rec, l) == Cardinality({ i \in DOMAIN rec.obs : rec.obs[i].loc = l /\ rec.obs[i].proj # "" })

(* Are the edges got, <<loc, eff>> in order, other than what a body with log and obs so far records? *)
EdgesWrong(w, rec, got) ==
  LET Req(e) == ~OptionalEdge(w, e)
      exp    == EdgesOf(w, rec.log, 1)
  IN \/ SelectSeq(Dedup(got, {}), Req) # SelectSeq(Dedup(exp, {}), Req)
     \/ ~(ToSet(got) \subseteq ToSet(exp))
     \/ \E l \in {e[1] : e \in ToSet(got)} :
          /\ ~OptionalEdge(w, <<l, "obs">>)
          /\ Cardinality({x \in DOMAIN got : got[x] = <<l, "obs">>})
            > PartObs(rec, l) + (IF FullObs(w, rec, l) THEN 1 ELSE 0)

BadEdges(w, snap) ==
  { <<"edges", snap[i].loc>> : i \in
    { j \in DOMAIN snap :
        LET n == snap[j] IN
        n.k = "comp" /\ n.loc \in DOMAIN w.last /\ EdgesWrong(w, w.last[n.loc], PairsOf(n.succs)) } }

BadInverse(snap) ==
  LET fw == UNION { { <<snap[i].loc, e[1], e[2]>> : e \in ToSet(snap[i].succs) } : i \in DOMAIN snap }
      bw == UNION { { <<e[1], snap[i].loc, e[2]>> : e \in ToSet(snap[i].preds) } : i \in DOMAIN snap }
  IN IF fw = bw THEN {} ELSE {<<"inverse", fw \ bw, bw \ fw>>}

DirtyLocs(snap) == { snap[i].loc : i \in { j \in DOMAIN snap : \E x \in DOMAIN snap[j].succs : snap[j].succs[x][3] } }
BadDirty(snap) ==
  LET ds == DirtyLocs(snap) IN
  { <<"clean-edge-to-dirty", snap[i].loc>> : i \in { j \in DOMAIN snap :
      \E x \in DOMAIN snap[j].succs :
        LET e == snap[j].succs[x] IN e[1] \in ds /\ e[2] = "obs" /\ ~e[3] } }

BadClean(prog, w, snap) ==
  LET ds == DirtyLocs(snap) IN
  { <<"stale-clean-node", snap[i].loc>> : i \in { j \in DOMAIN snap :
      LET n == snap[j] IN
      /\ n.k = "comp" /\ n.res /\ n.loc \notin ds
      /\ LET q == Demand(InitS(prog, w.store), <<"a", n.loc>>, <<>>, "id") IN
         /\ q.s.panic = "" /\ ~q.s.vague
         /\ ~(n.loc \in DOMAIN w.last /\ w.last[n.loc].val = q.v) } }

BadGraph(prog, w, snap) == BadEdges(w, snap) \cup BadInverse(snap) \cup BadDirty(snap) \cup BadClean(prog, w, snap)

(* The snapshot that a machine of the engine specification would give.            *)
SnapOf(m) ==
  LET ls == SetToSeq(DOMAIN m.table) IN
  [ i \in DOMAIN ls |->
      LET l == ls[i] n == m.table[l] IN
      [ loc |-> l, k |-> n.k, res |-> n.k # "comp" \/ n.res # <<>>,
        succs |-> [x \in DOMAIN Succs(m.table, l) |->
                     LET e == Succs(m.table, l)[x] IN <<e.loc, e.eff, e.dirty>>],
        preds |-> SetToSeq({ <<s, eff>> \in (DOMAIN m.table) \X {"obs", "alloc"} :
                     \E x \in DOMAIN Succs(m.table, s) :
                        Succs(m.table, s)[x].loc = l /\ Succs(m.table, s)[x].eff = eff }) ] ]

(* ----- Judging reflections (C28) ------------------------------------------------- *)
(* m: [vals : seq of <<loc, kind, value or <<>>, program point>>,                     *)
(*     stack : seq of [loc, succs], from the outermost, path], st: the open bodies.   *)
RECURSIVE Masked(_)
Masked(v) == CASE v[1] = "p" -> <<"p", Masked(v[2]), Masked(v[3])>>
               [] v[1] \in {"r", "n", "m"} -> <<"?">>
               [] OTHER -> v

BadNode(w, busy, store, x) ==
  IF x[1] \notin DOMAIN w.cur THEN {<<"unknown-node", x[1]>>}
  ELSE LET c == w.cur[x[1]] IN
    IF c.k # x[2] THEN {<<"kind", x[1], x[2]>>}
    ELSE IF c.k = "cell" THEN (IF x[3] = Masked(c.val) THEN {} ELSE {<<"content", x[1], x[3], c.val>>})
    ELSE (IF x[1] \in busy \/ ~(x[1] \in DOMAIN w.last \/ c.val = <<>>) THEN {}
          ELSE LET want == IF x[1] \in DOMAIN w.last THEN Masked(w.last[x[1]].val) ELSE <<>>
               IN IF x[3] = want THEN {} ELSE {<<"result", x[1], x[3], want>>})
         \cup (IF x[1] \in DOMAIN store /\ store[x[1]].k = "thunk" /\ x[4] # "c" \o ToString(store[x[1]].code)
               THEN {<<"program-point", x[1], x[4]>>} ELSE {})

BadReflection(w, st, store, path, m) ==
  LET open == SelectSeq(st, LAMBDA f : f.loc # "")
      busy == { open[i].loc : i \in DOMAIN open }
  IN UNION { BadNode(w, busy, store, m.vals[i]) : i \in DOMAIN m.vals }
     \cup { <<"missing-node", l>> : l \in DOMAIN w.cur \ { m.vals[i][1] : i \in DOMAIN m.vals } }
     \cup (IF [i \in DOMAIN m.stack |-> m.stack[i].loc] # [i \in DOMAIN open |-> open[i].loc]
           THEN {<<"running", [i \in DOMAIN m.stack |-> m.stack[i].loc]>>}
           ELSE { <<"running-edges", open[i].loc, m.stack[i].succs>> : i \in { j \in DOMAIN open :
                    \/ EdgesWrong(w, open[j], PairsOf(m.stack[j].succs))
                    \/ \E x \in DOMAIN m.stack[j].succs : m.stack[j].succs[x][3] } })
     \cup (IF path = "?" \/ m.path = path THEN {} ELSE {<<"path", m.path, path>>})

(* Each log entry has its reflection: of the state after it, or before it where a body ends. *)
(* Within its body, a path is known at the beginning and at the end.                          *)
RECURSIVE BadMids(_, _, _, _, _)
BadMids(g, lg, i, store, mids) ==
  IF i > Len(lg) THEN {}
  ELSE LET g1 == Entry(g, lg[i])
           h  == IF lg[i][1] = "x" THEN g ELSE g1
           l  == h.st[Len(h.st)].loc
           path == IF lg[i][1] \in {"b", "x"} /\ l \in DOMAIN store /\ store[l].k = "thunk" THEN store[l].path ELSE "?"
           b  == BadReflection(h.w, h.st, <<>>, path, mids[i])
       IN IF b # {} THEN b ELSE BadMids(g1, lg, i + 1, store, mids)

(* ----- Allocating or setting what is already there ------------------------------ *)
(* w is the monitor state before the operation.                                       *)
Unchanging(w, op) ==
  LET Known(l, k, v) == l \in DOMAIN w.cur /\ w.cur[l].k = k /\ w.cur[l].arg = v
      Base == PathOf("", op[2])
  IN CASE op[1] = "cell"   -> Known(LocOf(Base, op[3]), "cell", op[4])
       [] op[1] = "scell"  -> Known(LocOf(Base, StructCellId(op[3])), "cell", op[3])
       [] op[1] = "thunk"  -> Known(LocOf(Base, op[3]), "thunk", op[5])
       [] op[1] = "sthunk" -> Known(LocOf(Base, StructThunkId(op[3], op[4])), "thunk", op[4])
       [] op[1] = "set"    -> op[2][1] = "a" /\ Known(op[2][2], "cell", op[3])
       [] OTHER            -> FALSE

(* ----- One operation ------------------------------------------------------------ *)
(* From monitor state w, judge op with observed result out, log lg; returns          *)
(* [w, q, g].                                                                        *)
Judge(prog, w, op, out, lg) ==
  LET q  == ScratchOp(prog, w.store, op)
      g  == FoldLog(InitG(w), lg, 1)
      w1 == IF q.s.panic # "" \/ out[1] = "panic" THEN g.w ELSE EditorWrites(g.w, op, out)
      w2 == IF q.s.panic # "" THEN w1 ELSE [w1 EXCEPT !.store = q.s.store]
  IN [w |-> w2, q |-> q, g |-> [g EXCEPT !.w = w2]]
=============================================================================
