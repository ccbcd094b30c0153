------------------------------- MODULE Adapton -------------------------------
(***************************************************************************)
(* The Adapton engine (src/engine.rs), as a state machine.                 *)
(*                                                                         *)
(* State: a machine record m with                                          *)
(*   table  : location -> node, the demanded computation graph (DCG)       *)
(*   K      : control stack; its "frame" items are the engine's stack      *)
(*   path   : current namespace       smode : inside `structural`?         *)
(*   purity : the purity-optimization flag                                 *)
(*   status : "idle" | "run" | "done" | "panic"                            *)
(*   out    : value (or panic kind) of the latest editor operation         *)
(*   lg     : log of the bodies run by the latest editor operation:        *)
(*            <<"b",loc,code,arg,me>> a body begins (loc "" for bodies      *)
(*            without a node), <<"x",v>> it returns, <<"o",instr,art,p,v>>  *)
(*            it observed art through p, <<"a",instr,loc,content>> it        *)
(*            allocated                                                      *)
(*   ev     : effects (cf. reflect::trace) of the latest editor operation  *)
(*                                                                         *)
(* An editor operation (StartOp) is one API call of the outer program; a   *)
(* Step executes one instruction of a thunk body or one unit of change     *)
(* propagation.  Dirtying is one atomic unit: its result does not depend   *)
(* on the order in which predecessors are visited.                         *)
(*                                                                         *)
(* Archivist programs are given as data: prog.codes is a sequence of thunk *)
(* codes, each a sequence of register-machine instructions (see Exec).     *)
(* Values:  <<"i",n>> number   <<"p",v,w>> pair   <<"a",loc>> articulation *)
(*   <<"r",v>> `put` articulation      <<"n",code,arg,me>> naive thunk     *)
(*   <<"m",art,proj>> `thunk_map`                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

MOD == 8
NREG == 8
Zero == <<"i", 0>>

RECURSIVE Canon(_)
Canon(v) ==
  CASE v[1] = "i" -> ToString(v[2])
    [] v[1] = "p" -> "(" \o Canon(v[2]) \o "," \o Canon(v[3]) \o ")"
    [] v[1] = "a" -> "@" \o v[2]
    [] v[1] = "r" -> "!" \o Canon(v[2])
    [] v[1] = "n" -> "~" \o ToString(v[2]) \o "(" \o Canon(v[3]) \o ")" \o v[4]
    [] v[1] = "m" -> "^" \o v[3] \o Canon(v[2])

(* ----- Names, paths and locations (canonical strings) ------------------ *)
LocOf(path, id)    == path \o ":" \o id
SubPath(path, n)   == path \o "/" \o n
NamePair(a, b)     == "<" \o a \o "," \o b \o ">"
StructThunkId(c,v) == "#" \o ToString(c) \o "(" \o Canon(v) \o ")"
StructCellId(v)    == "#v(" \o Canon(v) \o ")"

(* name expressions of instructions: literal, relative to the running     *)
(* thunk's own name, or computed from a code and an argument               *)
NameOf(nm, me, regs) ==
  CASE nm[1] = "s"    -> nm[2]
    [] nm[1] = "self" -> NamePair(me, nm[2])
    [] nm[1] = "memo" -> NamePair("m" \o ToString(nm[2]), Canon(regs[nm[3]]))

(* ----- Pure operations on values ---------------------------------------- *)
IsArt(v) == v[1] \in {"a", "r", "n", "m"}
NumOf(v) == IF v[1] = "i" THEN v[2] ELSE 0
Proj(p, v) ==
  CASE p = "id"  -> v
    [] p = "fst" -> IF v[1] = "p" THEN v[2] ELSE v
    [] p = "snd" -> IF v[1] = "p" THEN v[3] ELSE v
    [] p = "odd" -> <<"i", NumOf(v) % 2>>
    [] p = "hi"  -> <<"i", NumOf(v) \div 4>>
    [] p = "inc" -> <<"i", (NumOf(v) + 1) % MOD>>

(* ----- The DCG table ----------------------------------------------------- *)
Put(tb, l, n) == IF l \in DOMAIN tb THEN [tb EXCEPT ![l] = n] ELSE tb @@ (l :> n)
Succs(tb, l)  == IF tb[l].k = "comp" THEN tb[l].succs ELSE <<>>

MutNode(v) == [k |-> "mut", val |-> v]
PureNode(v) == [k |-> "pure", val |-> v]
CompNode(c, a, me, path, struct) ==
  [k |-> "comp", code |-> c, arg |-> a, me |-> me, path |-> path,
   struct |-> struct, res |-> <<>>, succs |-> <<>>]

Edge(l, eff, proj, v) == [loc |-> l, eff |-> eff, proj |-> proj, val |-> v, dirty |-> FALSE]

ObsEdge(e, l) == e.eff = "obs" /\ e.loc = l

(* Does the content of cell l now differ from what edge e observed?         *)
EdgeSeesChange(tb, e) ==
  \/ e.proj = "" \/ e.proj = "abs" \/ tb[e.loc].k # "mut"
  \/ Proj(e.proj, tb[e.loc].val) # e.val

(* Observers that a change at l must dirty: all observation edges src -> l  *)
(* share their dirtiness.                                                   *)
ObserversToDirty(tb, l) ==
  { s \in DOMAIN tb : LET es == Succs(tb, s) IN
      /\ \E i \in DOMAIN es : ObsEdge(es[i], l) /\ EdgeSeesChange(tb, es[i])
      /\ \E i \in DOMAIN es : ObsEdge(es[i], l) /\ ~es[i].dirty }

MarkEdges(tb, srcs, l, eff) ==
  [ s \in DOMAIN tb |->
      IF s \in srcs
      THEN [tb[s] EXCEPT !.succs = [i \in DOMAIN @ |->
              IF @[i].eff = eff /\ @[i].loc = l THEN [@[i] EXCEPT !.dirty = TRUE] ELSE @[i]]]
      ELSE tb[s] ]

(* Transitive dirtying; returns the table and the set of dirtied edges.     *)
RECURSIVE DirtyObservers(_, _, _)
DirtyObservers(tb, work, acc) ==
  IF work = {} THEN [tb |-> tb, ds |-> acc]
  ELSE LET l  == CHOOSE x \in work : TRUE
           ss == ObserversToDirty(tb, l)
       IN DirtyObservers(MarkEdges(tb, ss, l, "obs"), (work \ {l}) \cup ss,
                         acc \cup {<<s, l, "obs">> : s \in ss})

AllocatorsToDirty(tb, l) ==
  { s \in DOMAIN tb : \E i \in DOMAIN Succs(tb, s) :
       LET e == Succs(tb, s)[i] IN e.eff = "alloc" /\ e.loc = l /\ ~e.dirty }

(* The content at l changed: dirty observers, allocators, and the observers *)
(* of the allocators.                                                       *)
DirtyAlloc(tb, l) ==
  LET d1 == DirtyObservers(tb, {l}, {})
      as == AllocatorsToDirty(d1.tb, l)
      t2 == MarkEdges(d1.tb, as, l, "alloc")
  IN DirtyObservers(t2, as, d1.ds \cup {<<s, l, "alloc">> : s \in as})

(* ----- Machine helpers ---------------------------------------------------- *)
InitMachine(prog, purity) ==
  [prog |-> prog, table |-> <<>>, K |-> <<>>, path |-> "", smode |-> FALSE,
   purity |-> purity, dbg |-> FALSE, status |-> "idle", out |-> Zero, lg |-> <<>>, ev |-> <<>>]

Top(m) == m.K[Len(m.K)]
Pop(m) == [m EXCEPT !.K = SubSeq(@, 1, Len(@) - 1)]
Push(m, it) == [m EXCEPT !.K = Append(@, it)]
SetTop(m, it) == [m EXCEPT !.K[Len(m.K)] = it]
Emit(m, e) == [m EXCEPT !.ev = Append(@, e)]
Log(m, e) == [m EXCEPT !.lg = Append(@, e)]
End(m) == Emit(m, <<"e">>)
Panic(m, why) == [m EXCEPT !.status = "panic", !.out = <<"panic", why>>]

FrameIxs(m) == { i \in DOMAIN m.K : m.K[i].k = "frame" }
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
CurLoc(m) == IF FrameIxs(m) = {} THEN "" ELSE m.K[MaxOf(FrameIxs(m))].loc
CurSuccs(m) == IF FrameIxs(m) = {} THEN <<>> ELSE m.K[MaxOf(FrameIxs(m))].succs

(* Append an edge to the running thunk's frame (the editor has none).       *)
AddSucc(m, e) ==
  IF FrameIxs(m) = {} THEN m
  ELSE [m EXCEPT !.K[MaxOf(FrameIxs(m))].succs = Append(@, e)]

(* A thunk is in progress while it runs and while its edges are cleaned.    *)
InProgress(m, l) == \E i \in DOMAIN m.K : m.K[i].k \in {"frame", "clean", "cleval"} /\ m.K[i].loc = l

DirtyEv(m, ds) == IF ds = {} THEN m ELSE Emit(m, <<"dirty", ds>>)

(* The edges of src disappear from the graph; one "remove" effect each.     *)
RevokeEv(m, src) ==
  [m EXCEPT !.ev = @ \o [i \in DOMAIN Succs(m.table, src) |->
                           <<"remove", src, Succs(m.table, src)[i].loc, Succs(m.table, src)[i].eff>>]]

(* ----- Allocation --------------------------------------------------------- *)
(* Writing v to the existing cell l.                                        *)
SetCell(m, l, v) ==
  IF m.table[l].val = v THEN m
  ELSE LET d == DirtyAlloc([m.table EXCEPT ![l].val = v], l)
       IN DirtyEv([m EXCEPT !.table = d.tb], d.ds)

\* Result of an allocation: [m, v] with v the articulation.
AllocCell(m, id, v) ==
  LET l     == LocOf(m.path, IF m.smode THEN StructCellId(v) ELSE id)
      pure  == m.smode /\ m.purity
      old   == l \in DOMAIN m.table
      case  == IF ~old THEN "fresh"
               ELSE IF m.table[l].k = "comp" THEN "diff"
               ELSE IF m.table[l].val = v THEN "same" ELSE "diff"
      m1    == Emit(m, <<"alloc", case, "cell", CurLoc(m), l, "alloc">>)
      m2    == IF ~old THEN [m1 EXCEPT !.table = Put(@, l, IF pure THEN PureNode(v) ELSE MutNode(v))]
               ELSE IF m.table[l].k = "mut" THEN SetCell(m1, l, v)
               ELSE IF m.table[l].k = "comp"
                 THEN LET r  == RevokeEv(m1, l)
                          d  == DirtyAlloc([r.table EXCEPT ![l] = MutNode(v)], l)
                      IN DirtyEv([r EXCEPT !.table = d.tb], d.ds)
               ELSE m1
      m3    == End(m2)
  IN [m |-> IF pure THEN m3 ELSE AddSucc(m3, Edge(l, "alloc", "cell", v)), v |-> <<"a", l>>]

AllocThunkStruct(m, c, a) ==
  LET id == StructThunkId(c, a)
      l  == LocOf(m.path, id)
  IN IF l \in DOMAIN m.table THEN [m |-> m, v |-> <<"a", l>>]
     ELSE [m |-> [AddSucc(m, Edge(l, "alloc", "struct", a)) EXCEPT
                    !.table = Put(@, l, CompNode(c, a, id, m.path, TRUE))],
           v |-> <<"a", l>>]

AllocThunk(m, id, c, a) ==
  IF m.smode THEN AllocThunkStruct(m, c, a)
  ELSE LET l    == LocOf(m.path, id)
           old  == l \in DOMAIN m.table
           n    == IF old THEN m.table[l] ELSE Zero
           new  == CompNode(c, a, id, m.path, FALSE)
           case == IF ~old THEN "fresh"
                   ELSE IF n.k = "comp" /\ n.arg = a THEN "same" ELSE "diff"
           m1   == Emit(m, <<"alloc", case, "thunk", CurLoc(m), l, "alloc">>)
           t2   == IF ~old \/ n.k = "mut" THEN Put(m.table, l, new)
                   ELSE IF case = "diff" THEN [m.table EXCEPT ![l].arg = a, ![l].res = <<>>]
                   ELSE m.table
           d    == IF case = "diff" THEN DirtyAlloc(t2, l) ELSE [tb |-> t2, ds |-> {}]
           m3   == End(DirtyEv([m1 EXCEPT !.table = d.tb], d.ds))
       IN IF old /\ n.k = "comp" /\ n.code # c
          THEN [m |-> Panic(m, "fn"), v |-> Zero]
          ELSE [m |-> AddSucc(m3, Edge(l, "alloc", "thunk", a)), v |-> <<"a", l>>]

(* ----- Running thunks ----------------------------------------------------- *)
InitRegs(a) == [i \in 1..NREG |-> IF i = 1 THEN a ELSE Zero]

\* Bodies may mark themselves in the trace (m.dbg), which changes nothing else.
Marked(m, me) == IF m.dbg THEN End(Emit(Emit(m, <<"b", "debug", me, "body">>), <<"b", "debug", "", "note">>)) ELSE m

StartBody(m, l, c, a, me) ==
  Log(Push(Marked(m, me), [k |-> "body", code |-> c, me |-> me, regs |-> InitRegs(a), pc |-> 1, blks |-> <<>>]),
      <<"b", l, c, a, me>>)

(* loc_produce: forget the old edges, then run the body in the namespace    *)
(* where the thunk was allocated.                                           *)
Produce(m, l) ==
  LET n  == m.table[l]
      m1 == RevokeEv(m, l)
      m2 == [m1 EXCEPT !.table[l].succs = <<>>, !.path = n.path]
  IN StartBody(Push(m2, [k |-> "frame", loc |-> l, succs |-> <<>>, path0 |-> m.path]),
               l, n.code, n.arg, n.me)

(* Hand value v to whoever waits for it.  Mutually recursive with the rest  *)
(* of change propagation.                                                   *)
RECURSIVE Deliver(_, _), DeliverC(_, _), ForceLoc(_, _, _, _, _)

(* Demanded value v (mapped by `map`) of an articulation arrives at the     *)
(* demanding body (register d) or, if none is running, at the editor.       *)
Arrive(m, v, d) ==
  IF m.K = <<>> THEN [m EXCEPT !.status = "done", !.out = v]
  ELSE LET t == Top(m) IN
    IF t.k = "body"
    THEN LET in == m.prog.codes[t.code][t.pc]
             m1 == SetTop(m, [t EXCEPT !.regs[d] = v, !.pc = @ + 1])
         IN CASE in[1] \in {"force", "fcyc"} -> Log(m1, <<"o", in[1], t.regs[in[3]], "id", v>>)
              [] in[1] \in {"fmap", "fabs"}  -> Log(m1, <<"o", in[1], t.regs[in[3]], in[4], v>>)
              [] OTHER -> m1
    ELSE Deliver(m, v)

RecordObs(m, l, v, dup) ==
  LET n    == m.table[l]
      pure == \/ n.k = "pure"
              \/ n.k = "comp" /\ n.struct /\ n.succs = <<>> /\ m.purity
  IN IF dup \/ pure THEN m ELSE AddSucc(m, Edge(l, "obs", "", v))

Deliver(m, v) ==
  LET t == Top(m) IN
  CASE t.k = "frame" ->
         LET m1 == [Pop(m) EXCEPT !.table[t.loc].succs = t.succs,
                                  !.table[t.loc].res = <<v>>,
                                  !.path = t.path0]
         IN Deliver(m1, v)
    [] t.k = "force" ->
         LET m1 == RecordObs(End(Pop(m)), t.loc, m.table[t.loc].res[1], t.dup)
         IN Arrive(m1, Proj(t.map, m.table[t.loc].res[1]), t.d)
    [] t.k = "cleval"  -> DeliverC(End(End(Pop(m))), v # t.cmp)
    [] t.k = "depeval" -> DeliverC(End(Pop(m)), v # t.cmp)
    [] t.k = "inl"     -> Arrive(Pop(m), Proj(t.map, v), t.d)

(* Hand the answer of a cleaning ("has the value changed?") to its asker.   *)
DeliverC(m, changed) ==
  LET t == Top(m) IN
  CASE t.k = "clean" ->
         IF changed
         THEN Produce(Emit(SetTop(m, [k |-> "cleval", loc |-> t.loc, cmp |-> t.cmp]),
                           <<"b", "cleaneval", t.loc, t.edges[t.i].loc, t.edges[t.i].eff>>), t.loc)
         ELSE LET m1 == [m EXCEPT !.table[t.loc].succs[t.i].dirty = FALSE]
              IN SetTop(End(Emit(m1, <<"cleanedge", t.loc, t.edges[t.i].loc, t.edges[t.i].eff>>)),
                        [t EXCEPT !.i = @ + 1])
    [] t.k = "force" -> Deliver(m, m.table[t.loc].res[1])

(* Ask whether dirty edge e still sees the same (DCGDep::clean).            *)
CleanDep(m, e) ==
  LET n == m.table[e.loc] IN
  CASE e.eff = "alloc" -> DeliverC(m, e.proj # "struct")
    [] e.proj = "abs" -> DeliverC(m, TRUE)
    [] e.proj \notin {"", "abs"} /\ e.eff = "obs" -> DeliverC(m, EdgeSeesChange(m.table, e))
    [] OTHER ->
         CASE n.k = "mut"  -> DeliverC(m, n.val # e.val)
           [] n.k = "pure" -> DeliverC(m, FALSE)
           [] n.k = "comp" ->
                IF InProgress(m, e.loc) THEN DeliverC(m, TRUE)
                ELSE IF n.res = <<>>
                  THEN Produce(Push(Emit(m, <<"b", "cleaneval", "", e.loc, "obs">>),
                                    [k |-> "depeval", cmp |-> e.val]), e.loc)
                  ELSE Push(m, [k |-> "clean", loc |-> e.loc, i |-> 1, edges |-> n.succs, cmp |-> e.val])

CleanStep(m) ==
  LET t == Top(m) IN
  IF t.i > Len(t.edges) THEN DeliverC(Pop(m), m.table[t.loc].res[1] # t.cmp)
  ELSE IF ~m.table[t.loc].succs[t.i].dirty THEN SetTop(m, [t EXCEPT !.i = @ + 1])
  ELSE CleanDep(Emit(m, <<"b", "cleanrec", t.loc, t.edges[t.i].loc, t.edges[t.i].eff>>), t.edges[t.i])

(* Demand location l; cyc is <<>> or <<value to use on a cycle>>.           *)
ForceLoc(m, l, d, cyc, map) ==
  LET n    == m.table[l]
      cs   == CurSuccs(m)
      dup  == \E i \in DOMAIN cs : cs[i].eff = "obs" /\ cs[i].loc = l /\ cs[i].proj = ""
      from == CurLoc(m)
  IN CASE n.k \in {"mut", "pure"} ->
            Arrive(RecordObs(Emit(m, <<"get", from, l, dup, "obs">>), l, n.val, dup), Proj(map, n.val), d)
       [] OTHER ->
            IF InProgress(m, l)
            THEN IF cyc = <<>> THEN Panic(m, "cycle")
                 ELSE Arrive(RecordObs(End(Emit(m, <<"b", "hit", from, l, dup, "obs">>)), l, cyc[1], dup),
                             Proj(map, cyc[1]), d)
            ELSE LET m1 == Push(Emit(m, <<"b", IF n.res = <<>> THEN "miss" ELSE "hit", from, l, dup, "obs">>),
                                [k |-> "force", loc |-> l, d |-> d, dup |-> dup, map |-> map])
                 IN IF n.res = <<>> THEN Produce(m1, l)
                    ELSE Push(m1, [k |-> "clean", loc |-> l, i |-> 1, edges |-> n.succs, cmp |-> n.res[1]])

(* Demand l through projection p: on a cell, only the projection is        *)
(* observed; on anything else this is an ordinary demand.                   *)
ForceMapLoc(m, l, d, p, tag) ==
  IF m.table[l].k = "mut"
  THEN LET v == Proj(p, m.table[l].val)
       IN Arrive(AddSucc(Emit(m, <<"get", CurLoc(m), l, FALSE, "obs">>), Edge(l, "obs", tag, v)), v, d)
  ELSE ForceLoc(m, l, d, <<>>, p)

(* Demand any articulation value.                                           *)
RECURSIVE ForceArt(_, _, _, _, _, _)
ForceArt(m, a, d, cyc, p, tag) ==
  CASE a[1] = "a" -> IF a[2] \notin DOMAIN m.table THEN Panic(m, "dangling")
                     ELSE IF tag = "" THEN ForceLoc(m, a[2], d, cyc, p)
                     ELSE ForceMapLoc(m, a[2], d, p, tag)
    [] a[1] = "r" -> Arrive(m, Proj(p, a[2]), d)
    [] a[1] = "n" -> StartBody(Push(m, [k |-> "inl", d |-> d, map |-> p]), "", a[2], a[3], a[4])
    [] a[1] = "m" -> ForceArt(Push(m, [k |-> "inl", d |-> d, map |-> p]), a[2], 0, <<>>, a[3], "")
    [] OTHER      -> Arrive(m, Proj(p, a), d)      \* not an articulation: itself

AllocTag(instr, smode) ==
  IF ~smode THEN instr ELSE IF instr = "cell" THEN "scell" ELSE "sthunk"

(* ----- Instructions -------------------------------------------------------- *)
LeaveBlocks(m) ==
  LET t == Top(m) IN
  IF t.blks # <<>> /\ t.pc > t.blks[Len(t.blks)].end
  THEN LET b == t.blks[Len(t.blks)]
       IN [SetTop(m, [t EXCEPT !.blks = SubSeq(@, 1, Len(@) - 1)]) EXCEPT !.path = b.path, !.smode = b.smode]
  ELSE m

Exec(m) ==
  LET t    == Top(m)
      code == m.prog.codes[t.code]
      in   == code[t.pc]
      r    == t.regs
      Set(mm, d, v) == LET tt == Top(mm) IN SetTop(mm, [tt EXCEPT !.regs[d] = v, !.pc = @ + 1])
      Alloc(res, d, c) == IF res.m.status = "panic" THEN res.m
                          ELSE Log(Set(res.m, d, res.v), <<"a", AllocTag(in[1], m.smode), res.v[2], c>>)
      Enter(mm, n) == SetTop(mm, [t EXCEPT !.pc = @ + 1,
                                  !.blks = Append(@, [end |-> t.pc + n, path |-> m.path, smode |-> m.smode])])
  IN CASE in[1] = "const"  -> Set(m, in[2], in[3])
       [] in[1] = "glob"   -> Set(m, in[2], <<"a", in[3]>>)
       [] in[1] = "move"   -> Set(m, in[2], r[in[3]])
       [] in[1] = "add"    -> Set(m, in[2], <<"i", (NumOf(r[in[3]]) + NumOf(r[in[4]])) % MOD>>)
       [] in[1] = "pair"   -> Set(m, in[2], <<"p", r[in[3]], r[in[4]]>>)
       [] in[1] = "proj"   -> Set(m, in[2], Proj(in[3], r[in[4]]))
       [] in[1] = "jz"     -> SetTop(m, [t EXCEPT !.pc = @ + (IF NumOf(r[in[2]]) = 0 THEN in[3] + 1 ELSE 1)])
       [] in[1] = "jodd"   -> SetTop(m, [t EXCEPT !.pc = @ + (IF NumOf(r[in[2]]) % 2 = 1 THEN in[3] + 1 ELSE 1)])
       [] in[1] = "jpair"  -> SetTop(m, [t EXCEPT !.pc = @ + (IF r[in[2]][1] = "p" THEN in[3] + 1 ELSE 1)])
       [] in[1] = "force"  -> ForceArt(m, r[in[3]], in[2], <<>>, "id", "")
       [] in[1] = "fcyc"   -> ForceArt(m, r[in[3]], in[2], <<in[4]>>, "id", "")
       [] in[1] = "fmap"   -> ForceArt(m, r[in[3]], in[2], <<>>, in[4], in[4])
       [] in[1] = "fabs"   -> ForceArt(m, r[in[3]], in[2], <<>>, in[4], "abs")
       [] in[1] = "cell"   -> Alloc(AllocCell(m, NameOf(in[3], t.me, r), r[in[4]]), in[2], r[in[4]])
       [] in[1] = "thunk"  -> Alloc(AllocThunk(m, NameOf(in[3], t.me, r), in[4], r[in[5]]), in[2], r[in[5]])
       [] in[1] = "sthunk" -> Alloc(AllocThunkStruct(m, in[3], r[in[4]]), in[2], r[in[4]])
       \* a body may not `set`: the attempt is refused and changes nothing
       [] in[1] = "tryset" -> Set(m, in[2], <<"i", 1>>)
       [] in[1] = "put"    -> Set(m, in[2], <<"r", r[in[3]]>>)
       [] in[1] = "nthunk" -> Set(m, in[2], <<"n", in[4], r[in[5]], NamePair(t.me, in[3])>>)
       [] in[1] = "tmap"   -> Set(m, in[2], IF IsArt(r[in[3]]) THEN <<"m", r[in[3]], in[4]>> ELSE r[in[3]])
       [] in[1] = "eager"  -> \* runs now; the result is a `put` articulation
            StartBody(Push(m, [k |-> "inl", d |-> in[2], map |-> "put"]), "", in[4], r[in[5]], NamePair(t.me, in[3]))
       [] in[1] = "ns"     -> [Enter(m, in[3]) EXCEPT !.path = SubPath(@, NameOf(in[2], t.me, r))]
       [] in[1] = "struct" -> [Enter(m, in[2]) EXCEPT !.smode = TRUE]
       [] in[1] = "ret"    -> LET b == t.blks
                                  m0 == Log(IF m.dbg THEN End(m) ELSE m, <<"x", r[in[2]]>>)
                                  m1 == IF b = <<>> THEN m0 ELSE [m0 EXCEPT !.path = b[1].path, !.smode = b[1].smode]
                              IN LET u == Top(Pop(m1)) IN
                                 IF u.k = "inl" /\ u.map = "put"
                                 THEN Arrive(Pop(Pop(m1)), <<"r", r[in[2]]>>, u.d)
                                 ELSE Deliver(Pop(m1), r[in[2]])

Running(m) == m.status = "run"

Step(m) ==
  LET t == Top(m) IN
  CASE t.k = "clean" -> CleanStep(m)
    [] t.k = "body"  -> IF t.blks # <<>> /\ t.pc > t.blks[Len(t.blks)].end THEN LeaveBlocks(m) ELSE Exec(m)

(* ----- Editor operations ---------------------------------------------------- *)
RECURSIVE PathOf(_, _)
PathOf(base, names) == IF names = <<>> THEN base ELSE PathOf(SubPath(base, Head(names)), Tail(names))

AtPath(m, names) == [m EXCEPT !.path = PathOf("", names)]
DoneWith(m, v) == IF m.status = "panic" THEN m ELSE [m EXCEPT !.status = "done", !.out = v, !.path = "", !.smode = FALSE]

StartOp(m0, op) ==
  LET m == [m0 EXCEPT !.status = "run", !.lg = <<>>, !.ev = <<>>, !.out = Zero, !.K = <<>>]
  IN CASE op[1] = "cell"   -> LET r == AllocCell(AtPath(m, op[2]), op[3], op[4]) IN DoneWith(r.m, r.v)
       [] op[1] = "scell"  -> LET r == AllocCell([AtPath(m, op[2]) EXCEPT !.smode = TRUE], "", op[3]) IN DoneWith(r.m, r.v)
       [] op[1] = "thunk"  -> LET r == AllocThunk(AtPath(m, op[2]), op[3], op[4], op[5]) IN DoneWith(r.m, r.v)
       [] op[1] = "sthunk" -> LET r == AllocThunkStruct(AtPath(m, op[2]), op[3], op[4]) IN DoneWith(r.m, r.v)
       [] op[1] = "set"    ->
            IF op[2][1] # "a" THEN Panic(m, "set")
            ELSE IF op[2][2] \notin DOMAIN m.table THEN Panic(m, "dangling")
            ELSE IF m.table[op[2][2]].k # "mut" THEN Panic(m, "set")
            ELSE DoneWith(SetCell(m, op[2][2], op[3]), Zero)
       [] op[1] = "force"  -> ForceArt(m, op[2], 0, <<>>, "id", "")
       [] op[1] = "fmap"   -> ForceArt(m, op[2], 0, <<>>, op[3], op[3])
       [] op[1] = "fabs"   -> ForceArt(m, op[2], 0, <<>>, op[3], "abs")
       [] op[1] = "fcyc"   -> ForceArt(m, op[2], 0, <<op[3]>>, "id", "")

RECURSIVE RunToEnd(_)
RunToEnd(m) == IF Running(m) THEN RunToEnd(Step(m)) ELSE m
Apply(m, op) == LET r == RunToEnd(StartOp(m, op)) IN
                IF r.status = "done" THEN [r EXCEPT !.status = "idle"] ELSE r
=============================================================================
