-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: judges histories recorded from the real engine.       *)
(* Each initial state is one recorded history; each step judges its next    *)
(* operation.  Checks selects what is judged:                               *)
(*   value   results of operations            (BadValue)                     *)
(*   extra   unjustified or repeated runs      (BadExtra)                     *)
(*   demand  undemanded or out-of-order runs   (BadDemand)                    *)
(*   fresh   demanded thunks are up to date    (BadFresh)                     *)
(*   graph   snapshots of the graph            (BadGraph)                     *)
(*   trace   the engine's own trace, in lockstep with Adapton.tla while       *)
(*           results, executions and snapshots agree with it                  *)
(*   deep    as value, but only for deep demands and refusals                *)
(*   quiet   allocating or setting what is there leaves the graph alone      *)
(*   engine  the library says which engine is current                         *)
(*   dump    the newest dump describes the graph                              *)
(*   reflect reflections of contents, results and the running bodies           *)
(*   twin    the same as another recorded history, except for the trace       *)
(***************************************************************************)
EXTENDS Monitor, Json, IOUtils

CONSTANTS Checks

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t, k, w, m, sync, bad, stop
vars == <<t, k, w, m, sync, bad, stop>>

Prog(i) == [codes |-> Traces[i].codes]

Init == /\ t \in DOMAIN Traces
        /\ k = 0 /\ w = InitW(Traces[t].purity) /\ bad = {} /\ stop = FALSE
        /\ m = [InitMachine(Prog(t), Traces[t].purity) EXCEPT !.dbg = Traces[t].dbg]
        /\ sync = ("trace" \in Checks)

NormEv(ev) == [i \in DOMAIN ev |-> IF ev[i][1] = "dirty" THEN <<"dirty", ToSet(ev[i][2])>> ELSE ev[i]]
NormSnap(sn) == { [loc |-> sn[i].loc, k |-> sn[i].k, res |-> sn[i].res, succs |-> sn[i].succs,
                   preds |-> ToSet(sn[i].preds)] : i \in DOMAIN sn }

IsPanic(out) == out[1] = "panic"
Refused(out) == IsPanic(out) /\ out[2] \notin {"crash", "hang", "no answer"}

OutAgrees(q, out) == IF q.s.panic # "" THEN Refused(out) ELSE out = q.v

WithDebug(ev) == IF Traces[t].dbg THEN <<<<"b", "debug", "", "op">>>> \o ev \o <<<<"e">>>> ELSE ev

(* A dump: boxes for what is no computation, and each computation's edges in order. *)
Color(e) == IF e[3] THEN "red" ELSE IF e[2] = "obs" THEN "grey" ELSE "darkgreen"
BadDump(snap, d) ==
  LET comp == { i \in DOMAIN snap : snap[i].k = "comp" }
      Of(l) == LET es == SelectSeq(d.edges, LAMBDA e : e[1] = l) IN [x \in DOMAIN es |-> <<es[x][2], es[x][3]>>]
      Want(n) == [x \in DOMAIN n.succs |-> <<n.succs[x][1], Color(n.succs[x])>>]
  IN { <<"unreadable", d.odd[i]>> : i \in DOMAIN d.odd }
     \cup (IF ToSet(d.boxes) = { snap[i].loc : i \in DOMAIN snap \ comp } THEN {} ELSE {<<"boxes", d.boxes>>})
     \cup { <<"edges", snap[i].loc, Of(snap[i].loc)>> : i \in { j \in comp : Of(snap[j].loc) # Want(snap[j]) } }
     \cup { <<"edge", d.edges[i]>> : i \in { j \in DOMAIN d.edges : d.edges[j][1] \notin { snap[c].loc : c \in comp } } }

Judged ==
  LET rec  == Traces[t].ops[k + 1]
      prog == Prog(t)
      op   == rec.op
      j    == Judge(prog, w, op, rec.out, rec.lg)
      good == j.q.s.panic = "" /\ ~IsPanic(rec.out)
      hasS == "snap" \in DOMAIN rec
      m1   == IF sync THEN Apply(m, op) ELSE m
      agree == sync /\ good /\ m1.out = rec.out /\ m1.lg = rec.lg
                    /\ (hasS => NormSnap(SnapOf(m1)) = NormSnap(rec.snap))
      both  == sync /\ op[1] = "set" /\ j.q.s.panic # "" /\ Refused(rec.out)   \* a refused set
      C(c, b) == IF c \in Checks THEN b ELSE {}
      prev == IF k = 0 THEN rec ELSE Traces[t].ops[k]
      twin == IF Traces[t].twin = 0 THEN rec ELSE Traces[Traces[t].twin].ops[k + 1]
  IN /\ k' = k + 1
     /\ w' = j.w
     /\ m' = IF agree THEN m1 ELSE m
     /\ sync' = (agree \/ both)
     /\ stop' = (j.q.s.vague \/ (op[1] \notin {"set", "nset"} /\ (IsPanic(rec.out) \/ j.q.s.panic # "")))
     /\ bad' = IF j.q.s.vague THEN {}
               ELSE C("value", IF OutAgrees(j.q, rec.out) THEN {} ELSE {<<"value", ScratchOut(j.q), rec.out>>})
                    \cup C("deep", IF OutAgrees(j.q, rec.out) \/ (op[1] \notin {"deep", "nset"} /\ ~IsPanic(rec.out)) THEN {}
                                   ELSE {<<"value", ScratchOut(j.q), rec.out>>})
                    \cup C("extra", IF good THEN BadExtra(j.g) ELSE {})
                    \cup C("demand", IF good THEN BadDemand(op, j.q, j.g) ELSE {})
                    \cup C("fresh", IF good THEN BadFresh(j.q, j.g) ELSE {})
                    \cup C("graph", IF good /\ hasS THEN BadGraph(prog, j.w, rec.snap) ELSE {})
                    \cup C("quiet", IF good /\ hasS /\ "snap" \in DOMAIN prev /\ k > 0 /\ Unchanging(w, op)
                                       /\ NormSnap(prev.snap) # NormSnap(rec.snap)
                                    THEN {<<"not-quiet", op>>} ELSE {})
                    \cup C("trace", IF agree /\ "ev" \in DOMAIN rec /\ NormEv(rec.ev) # WithDebug(m1.ev)
                                    THEN {<<"trace", WithDebug(m1.ev)>>} ELSE {})
                    \cup C("engine", IF "eng" \notin DOMAIN rec \/ rec.eng = (IF Traces[t].naive THEN "naive" ELSE "dcg") THEN {} ELSE {<<"engine", rec.eng>>})
                    \cup C("dump", IF good /\ hasS /\ "dump" \in DOMAIN rec THEN BadDump(rec.snap, rec.dump) ELSE {})
                    \cup C("reflect", IF ~good \/ "now" \notin DOMAIN rec THEN {}
                                       ELSE LET b == BadMids(InitG(w), rec.lg, 1, j.w.store, rec.mids)
                                            IN IF b # {} THEN b ELSE BadReflection(j.w, <<>>, j.w.store, "", rec.now))
                    \cup C("twin", IF twin.out = rec.out /\ twin.lg = rec.lg
                                      /\ ("snap" \in DOMAIN twin /\ hasS => NormSnap(twin.snap) = NormSnap(rec.snap))
                                   THEN {} ELSE {<<"twin", twin.out, rec.out>>})
     /\ UNCHANGED t

Finished == stop \/ k >= Len(Traces[t].ops)

Next == /\ ~Finished /\ bad = {} /\ Judged
        /\ (IF (stop' \/ k' >= Len(Traces[t].ops)) /\ bad' = {}
            THEN PrintT(ToString(<<"DONE", t, k', sync', stop'>>))
            ELSE IF bad' # {} THEN PrintT(ToString(<<"BAD", t, k', bad'>>)) ELSE TRUE)

View == <<t, k>>
=============================================================================
