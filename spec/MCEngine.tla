------------------------------- MODULE MCEngine -------------------------------
(***************************************************************************)
(* Design-level check: the engine specification satisfies the properties   *)
(* for every history, up to MaxLen operations, of each program family.     *)
(***************************************************************************)
EXTENDS Monitor, Families, Json

CONSTANTS MaxLen, Fams, Purity, Export

VARIABLES fam, m, w, hist, bad

vars == <<fam, m, w, hist, bad>>

FamOf(i) == AllFamilies[i]

DoOp(cyc, prog, m0, w0, op) ==
  LET m1 == Apply(m0, op)
      j  == Judge(prog, w0, op, m1.out, m1.lg)
      ok == j.q.s.panic = "" /\ ~j.q.s.vague
  IN [m |-> m1, w |-> j.w, vague |-> j.q.s.vague,
      bad |-> IF j.q.s.vague THEN {}
              ELSE (IF j.q.s.panic # "" /\ m1.status = "panic" THEN {} ELSE BadValue(j.q, m1.out))
                   \cup (IF ~ok \/ cyc THEN {}
                         ELSE BadExtra(j.g) \cup BadDemand(op, j.q, j.g) \cup BadFresh(j.q, j.g)
                              \cup BadGraph(prog, j.w, SnapOf(m1))
                              \cup (IF Unchanging(w0, op) /\ m1.table # m0.table THEN {<<"not-quiet", op>>} ELSE {}))]

RECURSIVE DoOps(_, _, _, _)
DoOps(cyc, prog, r, ops) == IF ops = <<>> THEN r ELSE DoOps(cyc, prog, DoOp(cyc, prog, r.m, r.w, ops[1]), Tail(ops))

\* Families with cyclic demands: only their values are specified.
Cyclic(i) == "cyclic" \in DOMAIN FamOf(i)

Start(i) ==
  LET p == [codes |-> FamOf(i).codes]
  IN DoOps(Cyclic(i), p, [m |-> InitMachine(p, Purity), w |-> InitW(Purity), bad |-> {}, vague |-> FALSE], FamOf(i).init)

Init == \E i \in Fams : /\ (IF Export THEN PrintT("FAM " \o ToString(i) \o " " \o ToJson(FamOf(i))) ELSE TRUE)
                        /\ LET s == Start(i) IN fam = i /\ m = s.m /\ w = s.w /\ bad = s.bad /\ hist = <<>>

\* With Export, every explored history is printed, to be replayed in the real engine.
Show(i, h) == IF Export THEN PrintT(ToString(<<"H", i, h>>)) ELSE TRUE

Next == /\ Len(hist) < MaxLen /\ bad = {}
        /\ (m.status = "panic" => hist # <<>> /\ FamOf(fam).ops[hist[Len(hist)]][1] = "set")
        /\ \E i \in DOMAIN FamOf(fam).ops :
             LET op == FamOf(fam).ops[i]
                 r  == DoOp(Cyclic(fam), [codes |-> FamOf(fam).codes], m, w, op)
             IN /\ ~r.vague
                /\ m' = r.m /\ w' = r.w /\ bad' = r.bad
                /\ hist' = Append(hist, i) /\ fam' = fam
                /\ Show(fam, hist')

\* histories that lead to the same graph and knowledge are not told apart
View == <<fam, m.table, w, bad, Len(hist), m.status>>

Holds == bad = {}
NoPanic == m.status # "panic"
=============================================================================
