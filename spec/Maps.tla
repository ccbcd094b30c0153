---- MODULE Maps ----
(* Finite maps and sets represented by lists of bindings (C25).

   A map is made by a sequence of items, the most recent first: bindings <<"b", d, c>>, names
   <<"n", nm>> and articulations <<"c", nm>>, <<"t", nm>>, <<"p">> that hold the rest.  What it means is a
   function: for each d the c that was bound last. *)
EXTENDS Judging
CONSTANTS MaxEdits

Bindings(q) == SelectSeq(q, LAMBDA i : i[1] = "b")
Pairs(q) == LET b == Bindings(q) IN [i \in DOMAIN b |-> <<b[i][2], b[i][3]>>]
Doms(q) == LET b == Bindings(q) IN [i \in DOMAIN b |-> b[i][2]]
(* Meaning. *)
Bound(q) == Range(Doms(q))
Find(q, d) == IF d \notin Bound(q) THEN <<"none">>
              ELSE LET b == Bindings(q)  i == CHOOSE i \in DOMAIN b : b[i][2] = d /\ \A j \in 1..(i - 1) : b[j][2] # d IN <<"some", b[i][3]>>
Inter(q, p) == Bound(q) \cap Bound(p)

(* Exploration: updates and edits of the representation; the meaning follows. *)
Init == s = [q |-> <<>>, f |-> <<>>, h |-> <<<<>>>>, k |-> 0]
Has(f, d) == \E i \in DOMAIN f : f[i][1] = d
Set(f, d, c) == Append(SelectSeq(f, LAMBDA x : x[1] # d), <<d, c>>)
Taken(q) == {q[i][2] : i \in {i \in DOMAIN q : q[i][1] \in {"n", "c"}}}
Next == /\ s.k < MaxEdits
        /\ \/ \E d \in 1..2, c \in 1..2 : LET q == <<<<"b", d, c>>>> \o s.q IN
                s' = [q |-> q, f |-> Set(s.f, d, c), h |-> Append(s.h, q), k |-> s.k + 1]
           \/ \E nm \in {"a", "b"} \ Taken(s.q) : LET q == <<<<"n", nm>>, <<"c", nm>>>> \o s.q IN
                s' = [q |-> q, f |-> s.f, h |-> Append(s.h, q), k |-> s.k + 1]
           \/ \E i \in {i \in DOMAIN s.q : s.q[i][1] = "b" /\ Find(s.q, s.q[i][2]) # <<"none">> /\ \E j \in 1..(i - 1) : s.q[j][1] = "b" /\ s.q[j][2] = s.q[i][2]} :
                (* dropping a binding that another one hides changes nothing *)
                LET q == SubSeq(s.q, 1, i - 1) \o SubSeq(s.q, i + 1, Len(s.q)) IN
                s' = [q |-> q, f |-> s.f, h |-> Append(s.h, q), k |-> s.k + 1]
        /\ Export => PrintT(<<"H", ToJson(s'.h)>>)
Holds == /\ Bound(s.q) = {s.f[i][1] : i \in DOMAIN s.f}
         /\ \A i \in DOMAIN s.f : Find(s.q, s.f[i][1]) = <<"some", s.f[i][2]>>

(* Judging: for each engine and step the answers. *)
Answers(r, k, eng, a) ==
    LET q == r.steps[k]
        bad(b, op, x) == Complain(b, <<eng, "step", k, op, x>>)
    IN Concat([i \in DOMAIN r.keys |-> bad(a.find[i] # Find(q, r.keys[i]), "find", <<r.keys[i], a.find[i]>>)])
       \o Concat([i \in DOMAIN r.keys |-> bad(a.mem[i] # (r.keys[i] \in Bound(q)), "is_mem", <<r.keys[i], a.mem[i]>>)])
       \o bad(a.fold # Reverse(Pairs(q)), "fold", a.fold)
       \o bad(a.setfold # Reverse(Doms(q)), "set fold", a.setfold)
       \o bad(a.updated # <<"some", 77>>, "update", a.updated)
       \o bad(a.others # [i \in DOMAIN r.keys |-> IF r.keys[i] = r.keys[1] THEN <<"some", 77>> ELSE Find(q, r.keys[i])], "update of others", a.others)
       \o bad(a.added # [i \in DOMAIN r.keys |-> r.keys[i] = r.keys[1] \/ r.keys[i] \in Bound(q)], "add", a.added)
       \o bad(Range(a.inter) # Inter(q, r.other), "inter", a.inter)
       \o bad(a.interfind # [i \in DOMAIN r.keys |-> r.keys[i] \in Inter(q, r.other)], "is_mem of inter", a.interfind)
Verdict(r) == IF r.died # "" THEN <<"the program ended: " \o r.died>>
              ELSE Complain(r.empty, <<"the empty map or set is not empty">>)
                   \o Concat([k \in DOMAIN r.steps |-> Answers(r, k, "dcg", r.dcg[k]) \o Answers(r, k, "naive", r.naive[k])])
JNext == JudgeWith(Verdict)
====
