---- MODULE Judging ----
(* The shape of the smaller specifications: explored as a state machine (INIT/NEXT of the module
   that extends this one), or used to judge records of what the implementation did: then the only
   variable walks from "todo" to "done" for each record, printing the verdict on it. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT Export

VARIABLE s

Recs == IF "RECS" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.RECS) ELSE <<>>

JInit == s \in {<<"todo", i>> : i \in DOMAIN Recs}

(* Verdict: the sequence of complaints about a record; empty if there are none. *)
JudgeWith(Verdict(_)) ==
    /\ s[1] = "todo"
    /\ LET v == Verdict(Recs[s[2]])
       IN IF v = <<>> THEN PrintT(<<"OK", s[2]>>) ELSE PrintT(<<"BAD", s[2], ToString(v)>>)
    /\ s' = <<"done", s[2]>>

Complain(bad, what) == IF bad THEN <<what>> ELSE <<>>
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Concat(_)
Concat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Concat(Tail(qs))
MapSeq(F(_), q) == [i \in DOMAIN q |-> F(q[i])]
====
