---- MODULE Macros ----
(* What the macros mean (C23): each form in terms of the engine's allocation and demand.

   Nodes are cells and thunks at locations; a location stands for a name.  A thunk has a code (a
   program point) and arguments; its result is kept until the content of a cell that it has read
   differs.  Unnamed articulations are just values.  An operation is <<mode, form, ...>>, mode "e" (by
   the editor) or "t" (by the body of a fresh thunk); a name is <<>> (none) or <<base, route>>, route ""
   for the base itself, "l", "r" for its forks. *)
EXTENDS Judging
CONSTANTS MaxOps

Loc(n) == n[1] \o "/" \o n[2]
CellAt(v) == [k |-> "cell", val |-> v, code |-> "", args |-> <<>>, done |-> FALSE, seen |-> 0]
ThunkAt(c, a) == [k |-> "thunk", val |-> 0, code |-> c, args |-> a, done |-> FALSE, seen |-> 0]
(* Handles: <<"loc", l>> or <<"val", v>>. *)
Content(tb, h) == IF h[1] = "val" THEN h[2] ELSE tb[h[2]].val
(* Results of codes; z = 9 is an argument that is not compared. *)
Reads(c) == c = "r"
Value(tb, c, a) ==
    CASE c \in {"f", "gen"} -> 10 * a[1] + a[2]
      [] c = "g" -> a[1] + 10 * a[2]
      [] c = "other::f" -> 500 + 10 * a[1] + a[2]
      [] c \in {"fz", "genz"} -> 900 + 10 * a[1] + a[2]
      [] c = "one" -> 3 * a[1] + 1
      [] c = "r" -> Content(tb, a[1]) + 100 * a[2]
      [] c = "k5" -> 5
      [] c = "k6" -> 6
      [] c = "lp" -> 8
Store(tb, l, n) == [m \in DOMAIN tb \cup {l} |-> IF m = l THEN n ELSE tb[m]]

(* A state: nodes tb, handles hs (<<>> for operations that give none), next automatic name k; what the last operation gave
   (out), the bodies it ran, its allocations al. *)
Start == [tb |-> <<>>, hs |-> <<>>, k |-> 0, out |-> <<"ok">>, runs |-> 0, al |-> <<>>]
Begin(x) == [x EXCEPT !.out = <<"ok">>, !.runs = 0, !.al = <<>>]
Refuse(x) == [x EXCEPT !.out = <<"panic">>, !.runs = 0]

PutCell(x, l, v) ==
    LET case == IF l \notin DOMAIN x.tb THEN "fresh" ELSE IF x.tb[l].val = v THEN "same" ELSE "diff" IN
    [x EXCEPT !.tb = Store(x.tb, l, CellAt(v)), !.al = Append(@, "cell " \o case)]
PutThunk(x, l, c, a) ==
    IF x.out = <<"panic">> THEN x
    ELSE IF l \notin DOMAIN x.tb THEN [x EXCEPT !.tb = Store(x.tb, l, ThunkAt(c, a)), !.al = Append(@, "thunk fresh")]
    ELSE IF x.tb[l].code # c THEN Refuse(x)
    ELSE IF x.tb[l].args = a THEN [x EXCEPT !.al = Append(@, "thunk same")]
    ELSE [x EXCEPT !.tb = Store(x.tb, l, ThunkAt(c, a)), !.al = Append(@, "thunk diff")]
(* A demand; the value is in the out field. *)
Get(x, h) ==
    IF x.out = <<"panic">> THEN x
    ELSE IF h[1] = "val" THEN [x EXCEPT !.out = <<"val", h[2]>>]
    ELSE LET n == x.tb[h[2]] IN
         IF n.k = "cell" THEN [x EXCEPT !.out = <<"val", n.val>>]
         ELSE LET c == IF Reads(n.code) THEN Content(x.tb, n.args[1]) ELSE 0
                  v == Value(x.tb, n.code, n.args)
                  again == n.done /\ n.seen = c
              IN [x EXCEPT !.tb[h[2]] = [n EXCEPT !.done = TRUE, !.seen = c, !.val = v], !.out = <<"val", v>>,
                           !.runs = @ + (IF again THEN 0 ELSE 1),
                           (* the body of lp allocates itself again, and demands itself with a value for that case *)
                           !.al = IF n.code = "lp" /\ ~again THEN Append(@, "thunk same") ELSE @]
Give(x, h) == IF x.out = <<"panic">> THEN [x EXCEPT !.hs = Append(@, <<>>)] ELSE [x EXCEPT !.hs = Append(@, h)]
At(l) == <<"loc", l>>
Auto(x) == "#" \o ToString(x.k)
Fixed(id) == id \o "/"

(* A thunk with an optional name: without one, its value. *)
OptThunk(x, nm, c, a) ==
    IF nm = <<>> THEN [x |-> [x EXCEPT !.runs = @ + 1], h |-> <<"val", Value(x.tb, c, a)>>]
    ELSE [x |-> PutThunk(x, Loc(nm), c, a), h |-> At(Loc(nm))]
Memo(y) == Give(Get(y.x, y.h), y.h)
Alloc(y) == Give(y.x, y.h)
(* A thunk found by its code and arguments; the engine's trace has no effect for allocating one. *)
Structural(x, c, a) == LET l == "s:" \o c \o ToString(a) IN [x |-> [PutThunk(x, l, c, a) EXCEPT !.al = x.al], h |-> At(l)]
Known(x, h) == h \in DOMAIN x.hs /\ x.hs[h] # <<>>
IsCell(x, h) == Known(x, h) /\ (x.hs[h][1] = "val" \/ x.tb[x.hs[h][2]].k = "cell")
Skip(x) == [x EXCEPT !.out = <<"skip">>, !.hs = Append(@, <<>>)]

(* Arguments as operations have them: numbers, or for code r, the handle of a cell first. *)
ArgsOk(x, c, a) == ~Reads(c) \/ IsCell(x, a[1])
Args(x, c, a) == IF Reads(c) THEN <<x.hs[a[1]]>> \o Tail(a) ELSE a

Perform(x, op) ==
    LET f == op[2] IN
    CASE f = "cell!" -> Give([PutCell(x, Auto(x), op[3]) EXCEPT !.k = @ + 1], At(Auto(x)))
      (* so many, with all sorts of numbers as contents: none takes the place of another *)
      [] f = "cells!" -> Give([x EXCEPT !.k = @ + op[3], !.out = <<"val", op[3]>>,
                                        !.al = @ \o [i \in 1..op[3] |-> IF (i - 1) % 7 = 3 THEN "thunk fresh" ELSE "cell fresh"]], <<>>)
      [] f = "cell!?" -> IF op[3] = <<>> THEN Give(x, <<"val", op[4]>>) ELSE Give(PutCell(x, Loc(op[3]), op[4]), At(Loc(op[3])))
      [] f \in {"cell![]", "let_cell"} -> Give(PutCell(x, Fixed(op[3]), op[4]), At(Fixed(op[3])))
      [] f = "let_cell2" -> Give(PutCell(PutCell(x, Fixed("a"), op[3]), Fixed("b"), op[4]), At(Fixed("b")))
      [] f = "cell_call" -> Give([PutCell(x, Loc(op[3]), Value(x.tb, op[4], op[5])) EXCEPT !.runs = @ + 1], At(Loc(op[3])))
      [] f \in {"thunk!?", "thunk!=>>", "memo!?", "memo!=>>", "eager!=>>", "thunk!?{}"} ->
           IF ~ArgsOk(x, op[4], op[5]) THEN Skip(x)
           ELSE LET y == OptThunk(x, op[3], op[4], Args(x, op[4], op[5])) IN
                IF f \in {"memo!?", "memo!=>>", "eager!=>>"} THEN (IF f = "memo!=>>" THEN Give(Get(y.x, y.h), <<>>) ELSE Memo(y)) ELSE Alloc(y)
      [] f \in {"thunk![]", "thunk![]{}", "let_thunk", "let_memo"} ->
           IF ~ArgsOk(x, op[4], op[5]) THEN Skip(x)
           ELSE LET y == [x |-> PutThunk(x, Fixed(op[3]), op[4], Args(x, op[4], op[5])), h |-> At(Fixed(op[3]))] IN
                IF f = "let_memo" THEN Give(Get(y.x, y.h), <<>>) ELSE Alloc(y)
      [] f = "let_thunk2" -> Give(PutThunk(PutThunk(x, "lt/", "k5", <<>>), "lu/", "k6", <<>>), At("lu/"))
      [] f = "let_memo2" -> LET y == Get(PutThunk(x, "lm/", "k5", <<>>), At("lm/"))
                                z == Get(PutThunk(y, "ln/", "k6", <<>>), At("ln/"))
                            IN IF z.out = <<"panic">> THEN Give(z, <<>>) ELSE Give([z EXCEPT !.out = <<"val", 56>>], <<>>)
      [] f = "thunk!{}" -> IF ~ArgsOk(x, op[3], op[4]) THEN Skip(x)
                           ELSE Give([PutThunk(x, Auto(x), op[3], Args(x, op[3], op[4])) EXCEPT !.k = @ + 1], At(Auto(x)))
      [] f = "eager!" -> Memo(Structural(x, op[3], op[4]))
      [] f \in {"get!", "get!,"} -> IF ~Known(x, op[3]) THEN Skip(x) ELSE Give(Get(x, x.hs[op[3]]), <<>>)
      [] f = "loop" -> Memo([x |-> PutThunk(x, "q/", "lp", <<>>), h |-> At("q/")])
      [] f = "set" -> IF ~Known(x, op[3]) \/ x.hs[op[3]][1] = "val" \/ x.tb[x.hs[op[3]][2]].k # "cell" THEN Skip(x)
                      ELSE Give([x EXCEPT !.tb[x.hs[op[3]][2]].val = op[4]], <<>>)
Do(x, op) == LET y == Begin(x) IN
             IF op[1] = "t" THEN LET z == Perform([y EXCEPT !.al = <<"thunk fresh">>], op) IN z ELSE Perform(y, op)

(* ---- exploration ---- *)
Nm(b, r) == <<b, r>>
Ops(x) ==
    {<<"e", "cell!", 1>>, <<"e", "cell!?", <<>>, 1>>, <<"t", "cell![]", "a", 2>>, <<"e", "let_cell2", 1, 2>>}
    \cup {<<"e", "cell!?", Nm("a", ""), v>> : v \in {1, 2}}
    \cup {<<m, f, Nm("t", ""), "f", <<1, 2>>>> : m \in {"e", "t"}, f \in {"thunk!?", "memo!=>>"}}
    \cup {<<"e", "thunk!=>>", Nm("t", ""), "f", <<2, 2>>>>, <<"e", "memo!?", Nm("t", ""), "g", <<1, 2>>>>, <<"e", "memo!?", <<>>, "f", <<1, 2>>>>,
          <<"e", "thunk![]", "t", "f", <<1, 2>>>>, <<"e", "thunk!?", Nm("t", ""), "other::f", <<1, 2>>>>, <<"e", "eager!", "other::f", <<1, 2>>>>, <<"e", "thunk!?", Nm("t", "l"), "f", <<1, 2>>>>, <<"e", "thunk!{}", "k5", <<>>>>, <<"e", "eager!", "f", <<1, 2>>>>,
          <<"t", "eager!", "f", <<1, 2>>>>, <<"e", "loop">>, <<"e", "let_thunk2">>, <<"t", "let_memo2">>}
    \cup {<<"e", "memo!?", Nm("u", ""), "r", <<h, 1>>>> : h \in {h \in DOMAIN x.hs : IsCell(x, h)}}
    \cup {<<"e", "get!", h>> : h \in {h \in DOMAIN x.hs : Known(x, h)}}
    \cup {<<"e", "set", h, 3>> : h \in DOMAIN x.hs}
Init == s = [x |-> Start, was |-> Start, hist |-> <<>>]
Next == /\ Len(s.hist) < MaxOps
        /\ \E op \in Ops(s.x) : LET x == Do(s.x, op) IN
             /\ x.out # <<"skip">>
             /\ s' = [x |-> x, was |-> s.x, hist |-> Append(s.hist, op)]
        /\ Export => PrintT(<<"H", ToJson(s'.hist)>>)
(* Results that are kept are those of running again; refusals change nothing; automatic names are new. *)
Holds == /\ \A l \in DOMAIN s.x.tb : LET n == s.x.tb[l] IN
              n.k = "thunk" /\ n.done /\ (~Reads(n.code) \/ n.seen = Content(s.x.tb, n.args[1])) => n.val = Value(s.x.tb, n.code, n.args)
         /\ s.x.out = <<"panic">> => s.x.tb = s.was.tb
         /\ \A i, j \in DOMAIN s.x.hs : i # j /\ s.x.hs[i] # <<>> /\ s.x.hs[i] = s.x.hs[j] /\ s.x.hs[i][1] = "loc"
                => ~(s.hist[i][2] \in {"cell!", "thunk!{}"})

(* ---- judging: for each operation r.outs, r.runs, r.al, r.same (whether what a name was given is what the engine's function gives the name),
   r.cls: the first operation that gave an equal articulation, 0 for none;
   r.twice: the expressions given to the macro that it evaluated again. *)
RECURSIVE Expected(_, _, _)
Expected(x, ops, i) == IF i > Len(ops) THEN <<>> ELSE LET y == Do(x, ops[i]) IN <<y>> \o Expected(y, ops, i + 1)
Class(hs, i) == IF hs[i] = <<>> THEN 0 ELSE MinOf({j \in 1..i : hs[j] = hs[i]})
Verdict(r) ==
    IF r.died # "" THEN <<"the program ended: " \o r.died>>
    ELSE LET e == Expected(Start, r.ops, 1) IN
         Concat([i \in DOMAIN e |->
            LET what(w, got, want) == Complain(got # want, <<"operation", i, r.ops[i], w, got, "expected", want>>) IN
            what("gave", r.outs[i], e[i].out)
            \o what("evaluated more than once", r.twice[i], <<>>)
            \o (IF e[i].out[1] = "skip" THEN <<>>
                ELSE what("ran", r.runs[i], e[i].runs) \o (IF e[i].out = <<"panic">> THEN <<>> ELSE what("allocated", r.al[i], e[i].al)
                     \o what("is", r.cls[i], Class(e[i].hs, i)) \o what("is named", r.same[i], TRUE)))])
JNext == JudgeWith(Verdict)
====
