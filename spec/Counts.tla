---- MODULE Counts ----
(* Effect counts summarize traces (C16).  A trace is a sequence of effects that open and close
   extents.  Counting is a machine over this sequence; a second machine runs on the sequence
   without its debug extents, and must always agree: debug extents are transparent. *)
EXTENDS Judging
CONSTANT MaxEffects

Kinds == {"dbg", "fresh", "same", "diff", "get", "hit", "miss", "cleanrec", "cleaneval", "cleanedge", "remove", "dirty"}
Zero == [fresh_e |-> 0, fresh_a |-> 0, same_e |-> 0, same_a |-> 0, diff_e |-> 0, diff_a |-> 0, dirty_e |-> 0, dirty_a |-> 0,
         clean_rec |-> 0, reeval_same |-> 0, reeval_diff |-> 0, demands |-> 0]

(* An open extent: its effect, the role of what happens in it, and whether, so far, one of its
   direct effects makes it a changed re-evaluation. *)
Start == [stk |-> <<>>, cnt |-> Zero]
Role(stk) == IF stk = <<>> THEN "e" ELSE Last(stk).role
Inc(c, f) == [c EXCEPT ![f] = @ + 1]

(* The innermost extent that is not for debugging; 0 if there is none. *)
Parent(stk) == LET S == {i \in DOMAIN stk : stk[i].k # "dbg"} IN IF S = {} THEN 0 ELSE MaxOf(S)

Open(st, k) ==
    LET role == Role(st.stk)
        p == Parent(st.stk)
        stk == IF p # 0 /\ st.stk[p].k = "cleaneval" /\ k \in {"fresh", "diff", "miss", "dirty"} THEN [st.stk EXCEPT ![p].ch = TRUE] ELSE st.stk
        cnt == CASE k \in {"fresh", "same", "diff", "dirty"} -> Inc(st.cnt, k \o "_" \o role)
                 [] k = "cleanrec" -> Inc(st.cnt, "clean_rec")
                 [] k \in {"hit", "miss"} /\ role = "e" -> Inc(st.cnt, "demands")
                 [] OTHER -> st.cnt
    IN [stk |-> Append(stk, [k |-> k, role |-> IF k \in {"hit", "miss"} THEN "a" ELSE role, ch |-> FALSE]), cnt |-> cnt]
Close(st) ==
    LET t == Last(st.stk)
    IN [stk |-> Front(st.stk), cnt |-> IF t.k = "cleaneval" THEN Inc(st.cnt, IF t.ch THEN "reeval_diff" ELSE "reeval_same") ELSE st.cnt]

(* Which effects can occur where. *)
May(stk, k) ==
    LET p == Parent(stk)
        role == Role(stk)
    IN IF p # 0 /\ stk[p].k \in {"fresh", "get", "cleanedge", "remove"} THEN FALSE
       ELSE IF p # 0 /\ stk[p].k \in {"same", "diff", "dirty"} THEN k = "dirty" /\ Last(stk).k # "dbg"
       ELSE IF role = "e" THEN k \in {"dbg", "fresh", "same", "diff", "get", "hit", "miss", "dirty"}
       ELSE TRUE

(* ---- exploration ---- *)
Init == s = [st |-> Start, plain |-> Start, hist |-> <<>>, n |-> 0]
Next ==
    \/ /\ s.n < MaxEffects
       /\ \E k \in Kinds :
            /\ May(s.st.stk, k)
            /\ s' = [st |-> Open(s.st, k), plain |-> IF k = "dbg" THEN s.plain ELSE Open(s.plain, k), hist |-> Append(s.hist, k), n |-> s.n + 1]
    \/ /\ s.st.stk # <<>>
       /\ s' = [st |-> Close(s.st), plain |-> IF Last(s.st.stk).k = "dbg" THEN s.plain ELSE Close(s.plain), hist |-> Append(s.hist, "."), n |-> s.n]
       /\ Export /\ Len(s.st.stk) = 1 => PrintT(<<"H", ToJson(s'.hist)>>)

Effects(c) == c.fresh_e + c.fresh_a + c.same_e + c.same_a + c.diff_e + c.diff_a + c.dirty_e + c.dirty_a
Holds == /\ s.st.cnt = s.plain.cnt
         /\ s.st.stk = <<>> => Effects(s.st.cnt) = Cardinality({i \in DOMAIN s.hist : s.hist[i] \in {"fresh", "same", "diff", "dirty"}})
         /\ s.st.stk = <<>> => s.st.cnt.reeval_same + s.st.cnt.reeval_diff = Cardinality({i \in DOMAIN s.hist : s.hist[i] = "cleaneval"})

(* ---- judging: hist is the sequence of effects ("." closes an extent) ---- *)
RECURSIVE RunAll(_, _, _)
RunAll(st, h, i) == IF i > Len(h) THEN st ELSE RunAll(IF h[i] = "." THEN Close(st) ELSE Open(st, h[i]), h, i + 1)
Same(a, b) == \A f \in DOMAIN Zero : a[f] = b[f]
VerdictOne(r) ==
    IF r.died # "" THEN <<"the program ended: " \o r.died>>
    ELSE LET e == RunAll(Start, r.hist, 1).cnt
         IN Complain(~Same(r.counts, e), <<"counts", r.counts, "expected", e>>)
            \o Complain(~Same(r.printed, e), <<"printed counts", r.printed, "expected", e>>)
            \o Complain(r.updates # r.want, <<"updates", r.updates, "expected", r.want>>)
JNext == JudgeWith(VerdictOne)
====
