------------------------------- MODULE Scratch -------------------------------
(***************************************************************************)
(* What a demand means: evaluation from scratch, without any cache, graph, *)
(* or change propagation.  This is the oracle for the properties about     *)
(* values and executions; it shares with Adapton.tla only the syntax of    *)
(* programs, values, names and locations.                                  *)
(*                                                                         *)
(* A store maps locations to their current content:                        *)
(*   cells   [k |-> "cell",  val]                                          *)
(*   thunks  [k |-> "thunk", code, arg, me, path, struct]                  *)
(* An evaluation state s has                                               *)
(*   store; path, smode;  prog;                                            *)
(*   busy  : thunks being evaluated     done : value of evaluated thunks   *)
(*   obs   : locations observed so far                                     *)
(*   bodies: the finished bodies, in order of completion, each with its    *)
(*           log of observations and allocations                           *)
(*   panic : "" or why the evaluation was abandoned                        *)
(*   vague : did the program use a name imprecisely (change the content of *)
(*           a location after observing it in the same demand)?            *)
(***************************************************************************)
EXTENDS Adapton

CellC(v) == [k |-> "cell", val |-> v]
ThunkC(c, a, me, path, st) == [k |-> "thunk", code |-> c, arg |-> a, me |-> me, path |-> path, struct |-> st]

Has(st, l) == l \in DOMAIN st
PutC(st, l, n) == IF l \in DOMAIN st THEN [st EXCEPT ![l] = n] ELSE st @@ (l :> n)

(* Writing content n to l in state s.                                       *)
WriteC(s, l, n) ==
  LET old == IF Has(s.store, l) THEN s.store[l] ELSE n
      fn  == Has(s.store, l) /\ old.k = "thunk" /\ n.k = "thunk" /\ old.code # n.code
      ch  == Has(s.store, l) /\ old # n
  IN IF fn THEN [s EXCEPT !.panic = "fn"]
     ELSE [s EXCEPT !.store = PutC(@, l, n),
                    !.vague = @ \/ (ch /\ l \in s.obs) \/ (ch /\ l \in s.wrote),
                    !.wrote = @ \cup {l}]

\* allocation results: [s, l]
WCell(s, id, v) ==
  LET l == LocOf(s.path, IF s.smode THEN StructCellId(v) ELSE id)
  IN [s |-> WriteC(s, l, CellC(v)), l |-> l]
WSThunk(s, c, a) ==
  LET id == StructThunkId(c, a)
      l  == LocOf(s.path, id)
  IN [s |-> IF Has(s.store, l) THEN s ELSE WriteC(s, l, ThunkC(c, a, id, s.path, TRUE)), l |-> l]
WThunk(s, id, c, a) ==
  IF s.smode THEN WSThunk(s, c, a)
  ELSE LET l == LocOf(s.path, id)
       IN [s |-> WriteC(s, l, ThunkC(c, a, id, s.path, FALSE)), l |-> l]

InitS(prog, store) ==
  [prog |-> prog, store |-> store, path |-> "", smode |-> FALSE, busy |-> {}, done |-> <<>>,
   obs |-> {}, wrote |-> {}, bodies |-> <<>>, panic |-> "", vague |-> FALSE]

(* A context is a running body; log collects what it and the node-less      *)
(* bodies it runs observe and allocate.                                      *)
Ctx(c, a, me) == [code |-> c, me |-> me, regs |-> InitRegs(a), pc |-> 1, blks |-> <<>>]

\* evaluation results: [s, v, log]
Res(s, v, log) == [s |-> s, v |-> v, log |-> log]

RECURSIVE Demand(_, _, _, _), DemandLoc(_, _, _), RunB(_, _, _), InstrB(_, _, _)

DemandLoc(s, l, cyc) ==
  IF ~Has(s.store, l) THEN Res([s EXCEPT !.panic = "dangling"], Zero, <<>>)
  ELSE LET n == s.store[l] IN
    IF n.k = "cell" THEN Res([s EXCEPT !.obs = @ \cup {l}], n.val, <<>>)
    ELSE IF l \in s.busy
      THEN IF cyc = <<>> THEN Res([s EXCEPT !.panic = "cycle"], Zero, <<>>)
           ELSE Res(s, cyc[1], <<>>)
    ELSE IF l \in DOMAIN s.done THEN Res(s, s.done[l], <<>>)
    ELSE LET r == RunB([s EXCEPT !.busy = @ \cup {l}, !.obs = @ \cup {l}, !.path = n.path],
                       Ctx(n.code, n.arg, n.me), <<>>)
         IN Res([r.s EXCEPT !.busy = @ \ {l}, !.path = s.path,
                            !.done = @ @@ (l :> r.v),
                            !.bodies = Append(@, [loc |-> l, code |-> n.code, arg |-> n.arg, me |-> n.me,
                                                  log |-> r.log, val |-> r.v])],
                r.v, <<>>)

(* Demand articulation a through projection p; the log is that of node-less *)
(* bodies run on the way.                                                    *)
Demand(s, a, cyc, p) ==
  CASE a[1] = "a" -> LET r == DemandLoc(s, a[2], cyc) IN Res(r.s, Proj(p, r.v), r.log)
    [] a[1] = "r" -> Res(s, Proj(p, a[2]), <<>>)
    [] a[1] = "n" -> LET r == RunB(s, Ctx(a[2], a[3], a[4]), <<>>) IN Res(r.s, Proj(p, r.v), r.log)
    [] a[1] = "m" -> LET r == Demand(s, a[2], <<>>, a[3]) IN Res(r.s, Proj(p, r.v), r.log)
    [] OTHER      -> Res(s, Proj(p, a), <<>>)

(* Run body c in state s; log is what it did so far.                        *)
RunB(s0, c0, log) ==
  IF s0.panic # "" THEN Res(s0, Zero, log)
  ELSE IF c0.blks # <<>> /\ c0.pc > c0.blks[Len(c0.blks)].end
  THEN LET b == c0.blks[Len(c0.blks)]
       IN RunB([s0 EXCEPT !.path = b.path, !.smode = b.smode],
               [c0 EXCEPT !.blks = SubSeq(@, 1, Len(@) - 1)], log)
  ELSE InstrB(s0, c0, log)

InstrB(s, c, log) ==
  LET in == s.prog.codes[c.code][c.pc]
      r  == c.regs
      Next(ss, d, v, lg) == RunB(ss, [c EXCEPT !.regs[d] = v, !.pc = @ + 1], lg)
      Nm == NameOf(in[3], c.me, r)
      Alloc(w, content) == Next(w.s, in[2], <<"a", w.l>>, Append(log, <<"a", AllocTag(in[1], s.smode), w.l, content>>))
      Obs(cyc, p) == LET q == Demand(s, r[in[3]], cyc, p)
                     IN Next(q.s, in[2], q.v, (log \o q.log) \o << <<"o", in[1], r[in[3]], p, q.v>> >>)
      Block(n, path, smode) ==
        RunB([s EXCEPT !.path = path, !.smode = smode],
             [c EXCEPT !.pc = @ + 1,
                       !.blks = Append(@, [end |-> c.pc + n, path |-> s.path, smode |-> s.smode])], log)
      Jump(b) == RunB(s, [c EXCEPT !.pc = @ + (IF b THEN in[3] + 1 ELSE 1)], log)
  IN CASE in[1] = "const"  -> Next(s, in[2], in[3], log)
       [] in[1] = "glob"   -> Next(s, in[2], <<"a", in[3]>>, log)
       [] in[1] = "move"   -> Next(s, in[2], r[in[3]], log)
       [] in[1] = "add"    -> Next(s, in[2], <<"i", (NumOf(r[in[3]]) + NumOf(r[in[4]])) % MOD>>, log)
       [] in[1] = "pair"   -> Next(s, in[2], <<"p", r[in[3]], r[in[4]]>>, log)
       [] in[1] = "proj"   -> Next(s, in[2], Proj(in[3], r[in[4]]), log)
       [] in[1] = "jz"     -> Jump(NumOf(r[in[2]]) = 0)
       [] in[1] = "jodd"   -> Jump(NumOf(r[in[2]]) % 2 = 1)
       [] in[1] = "jpair"  -> Jump(r[in[2]][1] = "p")
       [] in[1] = "force"  -> Obs(<<>>, "id")
       [] in[1] = "fcyc"   -> Obs(<<in[4]>>, "id")
       [] in[1] = "fmap"   -> Obs(<<>>, in[4])
       [] in[1] = "fabs"   -> Obs(<<>>, in[4])
       [] in[1] = "cell"   -> Alloc(WCell(s, Nm, r[in[4]]), r[in[4]])
       [] in[1] = "thunk"  -> Alloc(WThunk(s, Nm, in[4], r[in[5]]), r[in[5]])
       [] in[1] = "sthunk" -> Alloc(WSThunk(s, in[3], r[in[4]]), r[in[4]])
       [] in[1] = "tryset" -> Next(s, in[2], <<"i", 1>>, log)
       [] in[1] = "put"    -> Next(s, in[2], <<"r", r[in[3]]>>, log)
       [] in[1] = "nthunk" -> Next(s, in[2], <<"n", in[4], r[in[5]], NamePair(c.me, in[3])>>, log)
       [] in[1] = "tmap"   -> Next(s, in[2], IF IsArt(r[in[3]]) THEN <<"m", r[in[3]], in[4]>> ELSE r[in[3]], log)
       [] in[1] = "eager"  -> LET q == RunB(s, Ctx(in[4], r[in[5]], NamePair(c.me, in[3])), <<>>)
                              IN Next(q.s, in[2], <<"r", q.v>>, log \o q.log)
       [] in[1] = "ns"     -> Block(in[3], SubPath(s.path, NameOf(in[2], c.me, r)), s.smode)
       [] in[1] = "struct" -> Block(in[2], s.path, TRUE)
       [] in[1] = "ret"    -> Res(IF c.blks = <<>> THEN s ELSE [s EXCEPT !.path = c.blks[1].path, !.smode = c.blks[1].smode],
                                  r[in[2]], log)

(* Value v with every articulation in it replaced by what demanding it      *)
(* gives, to some depth.                                                     *)
RECURSIVE Deep(_, _, _)
Deep(s, v, n) ==
  IF s.panic # "" THEN Res(s, Zero, <<>>)
  ELSE CASE v[1] = "i" -> Res(s, v, <<>>)
         [] v[1] = "p" -> LET a == Deep(s, v[2], n) b == Deep(a.s, v[3], n) IN Res(b.s, <<"p", a.v, b.v>>, <<>>)
         [] OTHER      -> IF n = 0 THEN Res(s, <<"d">>, <<>>)
                          ELSE LET a == Demand(s, v, <<>>, "id") b == Deep(a.s, a.v, n - 1)
                               IN Res(b.s, <<"d", b.v>>, <<>>)

(***************************************************************************)
(* One editor operation on a store.                                        *)
(***************************************************************************)
ScratchOp(prog, store, op) ==
  LET s  == [InitS(prog, store) EXCEPT !.path = IF op[1] \in {"cell", "scell", "thunk", "sthunk"}
                                                THEN PathOf("", op[2]) ELSE ""]
      A(w) == Res(w.s, <<"a", w.l>>, <<>>)
      Bad(why) == Res([s EXCEPT !.panic = why], Zero, <<>>)
  IN CASE op[1] = "cell"   -> A(WCell(s, op[3], op[4]))
       [] op[1] = "scell"  -> A(WCell([s EXCEPT !.smode = TRUE], "", op[3]))
       [] op[1] = "thunk"  -> A(WThunk(s, op[3], op[4], op[5]))
       [] op[1] = "sthunk" -> A(WSThunk(s, op[3], op[4]))
       [] op[1] = "set"    ->
            IF op[2][1] # "a" THEN Bad("set")
            ELSE IF ~Has(store, op[2][2]) THEN Bad("dangling")
            ELSE IF store[op[2][2]].k # "cell" THEN Bad("set")
            ELSE Res([s EXCEPT !.store[op[2][2]].val = op[3]], Zero, <<>>)
       [] op[1] = "nset"   -> Bad("set")   \* under an engine without mutation
       [] op[1] = "force"  -> Demand(s, op[2], <<>>, "id")
       [] op[1] = "fmap"   -> Demand(s, op[2], <<>>, op[3])
       [] op[1] = "fabs"   -> Demand(s, op[2], <<>>, op[3])
       [] op[1] = "fcyc"   -> Demand(s, op[2], <<op[3]>>, "id")
       [] op[1] = "deep"   -> LET r == Demand(s, op[2], <<>>, "id") IN Deep(r.s, r.v, op[3])

ScratchOut(q) == IF q.s.panic # "" THEN <<"panic", q.s.panic>> ELSE q.v
=============================================================================
