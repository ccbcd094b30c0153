---- MODULE Reuse ----
(* What the list and tree functions run again after an edit (C26).

   The functions of the catalog, written out with their cells and memoized thunks.  A list is a sequence of
   items <<"x", k>> and <<"n", nm>>, whose last item may be <<"a", key>>: the rest is in the cell or
   thunk of that key.  A tree is <<"nil">>, <<"leaf", k>>, <<"bin", lev, l, r>>, <<"name", nm, lev, l, r>>
   or <<"a", key>>.  Names are strings (as the implementation prints them), "" stands for none.

   A world w holds the cells, the thunks and their values, and the runs of thunks: each with its
   signature -- its arguments and everything that it read -- and the calls of user functions that
   it made.  Every step evaluates everything from scratch.  Of the runs of a step, those are for
   nothing whose thunk ran in the step before with the same signature: the engine must not make them.
   Thus the calls seen in a step are among those of the other runs.  *)
EXTENDS Judging
CONSTANTS MaxEdits

Empty == [x \in {} |-> 0]
World(par) == [par |-> par, ns |-> "", cell |-> Empty, thunk |-> Empty, val |-> Empty, runs |-> <<>>, obs |-> <<>>, calls |-> <<>>]
Res(v, w) == [v |-> v, w |-> w]
Str(n) == "String(\"" \o n \o "\")"
FL(n) == "ForkL(" \o n \o ")"
FR(n) == "ForkR(" \o n \o ")"
RevOf(n) == "Pair(" \o Str("rev") \o "," \o n \o ")"
Key(w, n) == w.ns \o "/" \o n
Call(w, c) == [w EXCEPT !.calls = Append(@, c)]
Cell(w, n, v) == [w EXCEPT !.cell = (Key(w, n) :> v) @@ @]
Thunk(w, n, f, a) == [w EXCEPT !.thunk = (Key(w, n) :> [f |-> f, a |-> a, ns |-> w.ns]) @@ @]
Seen(w, key, v) == Res(v, [w EXCEPT !.obs = Append(@, <<key, v>>)])
In(n, G(_), w) == LET r == G([w EXCEPT !.ns = Key(w, n)]) IN Res(r.v, [r.w EXCEPT !.ns = w.ns])

Pred(p, k) == CASE p[1] = "lt" -> k < p[2] [] p[1] = "ge" -> k >= p[2] [] p[1] = "par" -> k % 2 = p[2]
MonoidOp(a, b) == ((((a \div 10) * (b \div 10)) % 10) * 10) + ((((a \div 10) * (b % 10)) + (a % 10)) % 10)
Lev(w, k) == w.par.levs[ToString(k)]
NLev(w, nm) == w.par.nlevs[nm]
MaxLev == 100000

RECURSIVE Apply(_, _, _), Elim(_, _), TElim(_, _), Upto(_, _), Op(_, _, _)
(* Reading a cell or thunk. *)
Get(key, w) ==
    IF key \in DOMAIN w.cell THEN Seen(w, key, w.cell[key])
    ELSE IF key \in DOMAIN w.val THEN Seen(w, key, w.val[key])
    ELSE LET t == w.thunk[key]
             r == Apply(t.f, t.a, [w EXCEPT !.ns = t.ns, !.obs = <<>>, !.calls = <<>>])
         IN Seen([r.w EXCEPT !.ns = w.ns, !.val = (key :> r.v) @@ @, !.obs = w.obs, !.calls = w.calls,
                             !.runs = Append(@, [key |-> key, sig |-> <<t.a, r.w.obs>>, calls |-> r.w.calls])], key, r.v)
Memo(w, n, f, a) == Get(Key(w, n), Thunk(w, n, f, a))
Elim(l, w) == IF l # <<>> /\ l[1][1] = "a" THEN LET r == Get(l[1][2], w) IN Elim(r.v, r.w) ELSE Res(l, w)
TElim(t, w) == IF t[1] = "a" THEN LET r == Get(t[2], w) IN TElim(r.v, r.w) ELSE Res(t, w)
(* Taking a whole list or tree apart, from outside. *)
Upto(l, w) == LET e == Elim(l, w) IN IF e.v = <<>> THEN e ELSE LET r == Upto(Tail(e.v), e.w) IN Res(<<Head(e.v)>> \o r.v, r.w)
RECURSIVE Term(_, _)
Term(t, w) ==
    LET e == TElim(t, w) IN
    IF e.v[1] \in {"nil", "leaf"} THEN e
    ELSE LET n == Len(e.v)  a == Term(e.v[n - 1], e.w)  b == Term(e.v[n], a.w) IN Res(SubSeq(e.v, 1, n - 2) \o <<a.v, b.v>>, b.w)

NameOp(n, l) == IF n = "" THEN l ELSE <<<<"n", n>>>> \o l
IsX(l) == l # <<>> /\ l[1][1] = "x"
Prepend(i, r) == Res(<<i>> \o r.v, r.w)
Art(w, n) == <<"a", Key(w, n)>>
IsNil(t, w) == LET e == TElim(t, w) IN Res(e.v = <<"nil">>, e.w)
(* A binary node, unless a side is empty; named ones have their sides in cells. *)
BinArts(n, lev, l, r, w0) ==
    LET a == IsNil(l, w0) IN
    IF a.v THEN Res(r, a.w)
    ELSE LET b == IsNil(r, a.w) IN
         IF b.v THEN Res(l, b.w)
         ELSE IF n = "" THEN Res(<<"bin", lev, l, r>>, b.w)
         ELSE LET w == Cell(Cell(b.w, FL(n), l), FR(n), r) IN Res(<<"name", n, lev, Art(w, FL(n)), Art(w, FR(n))>>, w)
(* What folds upwards do, for each use. *)
UpNil(u, m, w) == Res(CASE u \in {"show"} -> "-" [] u = "monoid" -> 10 [] u \in {"filter", "prune", "eager"} -> <<"nil">> [] OTHER -> <<>>, IF u = "show" THEN Call(w, "nil " \o m) ELSE w)
UpLeaf(u, m, k, w) ==
    CASE u = "show" -> Res(m \o ToString(k), Call(w, "leaf " \o m \o ToString(k)))
      [] u = "filter" -> Res(IF Pred(w.par.pred, k) THEN <<"leaf", k>> ELSE <<"nil">>, Call(w, "p " \o ToString(k)))
      [] u \in {"prune", "eager"} -> Res(<<"leaf", k>>, w)
      [] u = "monoid" -> Res(k % 100, w)
      [] u = "sort1" -> Res(<<<<"x", k>>>>, w)
      [] u \in {"sort2", "sort3"} -> Res(NameOp(m, <<<<"x", k>>>>), w)
Binary(u, lev, n, l, r, w) ==
    CASE u = "show" -> Res("(" \o l \o " " \o n \o ":" \o ToString(lev) \o " " \o r \o ")", Call(w, "bin " \o n \o ":" \o ToString(lev) \o " " \o l \o " " \o r))
      [] u = "monoid" -> Res(MonoidOp(l, r), Call(w, "op " \o ToString(l) \o " " \o ToString(r)))
      [] u \in {"filter", "prune"} -> In("()", LAMBDA x : BinArts(n, lev, l, r, x), w)
      [] u = "eager" -> Res(IF n = "" THEN <<"bin", lev, l, r>> ELSE <<"name", n, lev, l, r>>, w)
      [] u = "sort1" -> Apply("merge", IF n = "" THEN <<"", l, "", r>> ELSE <<FL(n), l, FR(n), r>>, w)
      [] u = "sort2" -> In("merge", LAMBDA x : Apply("merge", <<"", l, IF n = "" THEN "" ELSE FL(n), r>>, x), w)
      [] u = "sort3" -> In("merge", LAMBDA x : Apply("merge", <<"", l, "", r>>, x), w)
Mapping(f, n) == IF f = "map_eager2" THEN FL(FR(n)) ELSE n

DoMap(f, a, w0) ==
        LET e == Elim(a[1], w0)  l == e.v  w == e.w
            isMap == f \in {"map_eager", "map_eager2", "map_lazy"}
        IN IF l = <<>> THEN Res(<<>>, w)
           ELSE IF IsX(l)
           THEN LET k == l[1][2]  r == Apply(f, <<Tail(l)>>, Call(w, (IF isMap THEN "f " ELSE "p ") \o ToString(k)))
                IN IF isMap THEN Prepend(<<"x", k + 1>>, r) ELSE IF Pred(w.par.pred, k) THEN Prepend(<<"x", k>>, r) ELSE r
           ELSE LET n == l[1][2] IN
                CASE f \in {"map_lazy", "filter_lazy"} -> LET w2 == Thunk(w, n, f, <<Tail(l)>>) IN Res(<<Art(w2, n)>>, w2)
                  [] f \in {"map_eager", "filter_eager"} -> LET r == Memo(w, n, f, <<Tail(l)>>) IN Res(<<<<"n", n>>, Art(r.w, n)>>, r.w)
                  [] f = "map_eager2" -> LET r == Memo(w, FL(FR(n)), f, <<Tail(l)>>)  w2 == Cell(r.w, FR(FR(n)), r.v) IN Res(<<<<"n", FL(n)>>, Art(w2, FR(FR(n)))>>, w2)
DoReverse(a, w0) ==
        LET e == Elim(a[1], w0)  l == e.v  w == e.w IN
        IF l = <<>> THEN Res(a[2], w)
        ELSE IF IsX(l) THEN Apply("reverse", <<Tail(l), <<l[1]>> \o a[2]>>, w)
        ELSE LET n == l[1][2]  w2 == Cell(w, RevOf(n), a[2])  r == Memo(w2, n, "reverse", <<Tail(l), <<Art(w2, RevOf(n))>>>>) IN Res(<<<<"n", n>>, Art(r.w, n)>>, r.w)
(* <<direction, list, tree, its level, parent's level>> to <<tree, rest>> *)
DoTree(a, w0) ==
        LET e == Elim(a[2], w0)  l == e.v  w == e.w
            join(x, y) == IF a[1] = "L" THEN <<x, y>> ELSE <<y, x>>
        IN IF l = <<>> THEN Res(<<a[3], l>>, w)
           ELSE IF IsX(l)
           THEN LET lev == Lev(w, l[1][2]) + 1 IN
                IF a[4] <= lev /\ lev <= a[5]
                THEN LET r == Apply("tree", <<a[1], Tail(l), <<"leaf", l[1][2]>>, 0, lev>>, w)
                     IN Apply("tree", <<a[1], r.v[2], <<"bin", lev>> \o join(a[3], r.v[1]), lev, a[5]>>, r.w)
                ELSE Res(<<a[3], l>>, w)
           ELSE LET n == l[1][2]  lev == NLev(w, n) + 33 IN
                IF a[4] <= lev /\ lev <= a[5]
                THEN LET r == Memo(w, FL(n), "tree", <<a[1], Tail(l), <<"nil">>, 0, lev>>)
                         w2 == Cell(r.w, n, <<"name", n, lev>> \o join(a[3], r.v[1]))
                     IN Memo(w2, FR(n), "tree", <<a[1], r.v[2], Art(w2, n), lev, a[5]>>)
                ELSE Res(<<a[3], l>>, w)
(* <<use, tree, direction, result so far>> *)
DoSeq(a, w0) ==
        LET e == TElim(a[2], w0)  t == e.v  w == e.w IN
        CASE t[1] = "nil" -> Res(a[4], w)
          [] t[1] = "leaf" -> IF a[1] = "list" THEN Res(<<<<"x", t[2]>>>> \o a[4], w)
                              ELSE Res((IF Pred(w.par.pred, t[2]) THEN <<<<"x", t[2]>>>> ELSE <<>>) \o a[4], Call(w, "p " \o ToString(t[2])))
          [] t[1] = "bin" ->
               LET r == Apply("seq", <<a[1], IF a[3] = "L" THEN t[3] ELSE t[4], a[3], a[4]>>, w)
               IN Apply("seq", <<a[1], IF a[3] = "L" THEN t[4] ELSE t[3], a[3], r.v>>, r.w)
          [] t[1] = "name" ->
               LET n == t[2]
                   r == Memo(w, FL(n), "seq", <<a[1], IF a[3] = "L" THEN t[4] ELSE t[5], a[3], a[4]>>)
                   keep == a[1] = "filter" /\ r.v # <<>> /\ r.v[1][1] = "n"
                   w2 == IF keep THEN r.w ELSE Cell(r.w, n, r.v)
               IN Memo(w2, FR(n), "seq", <<a[1], IF a[3] = "L" THEN t[5] ELSE t[4], a[3], IF keep THEN r.v ELSE <<<<"n", n>>, Art(w2, n)>>>>)
(* <<use, tree>> *)
DoUp(a, w0) ==
        LET e == TElim(a[2], w0)  t == e.v  w == e.w IN
        CASE t[1] = "nil" -> UpNil(a[1], "", w)
          [] t[1] = "leaf" -> UpLeaf(a[1], "", t[2], w)
          [] t[1] = "bin" -> LET l == Apply("up", <<a[1], t[3]>>, w)  r == Apply("up", <<a[1], t[4]>>, l.w) IN Binary(a[1], t[2], "", l.v, r.v, r.w)
          [] t[1] = "name" -> LET l == Memo(w, FL(t[2]), "up", <<a[1], t[4]>>)  r == Memo(l.w, FR(t[2]), "up", <<a[1], t[5]>>) IN Binary(a[1], t[3], t[2], l.v, r.v, r.w)
(* <<use, tree, name>> *)
DoDn(a, w0) ==
        LET e == TElim(a[2], w0)  t == e.v  w == e.w IN
        CASE t[1] = "nil" -> UpNil(a[1], a[3], w)
          [] t[1] = "leaf" -> UpLeaf(a[1], a[3], t[2], w)
          [] t[1] = "bin" -> LET l == Apply("dn", <<a[1], t[3], a[3]>>, w)  r == Apply("dn", <<a[1], t[4], "">>, l.w) IN Binary(a[1], t[2], "", l.v, r.v, r.w)
          [] t[1] = "name" -> LET l == Memo(w, FL(t[2]), "dn", <<a[1], t[4], a[3]>>)  r == Memo(l.w, FR(t[2]), "dn", <<a[1], t[5], t[2]>>) IN Binary(a[1], t[3], t[2], l.v, r.v, r.w)
(* <<name, list, name, list>> *)
DoMerge(a, w0) ==
        LET e == Elim(a[2], w0)  l == e.v IN
        IF l = <<>> THEN Res(NameOp(a[3], a[4]), e.w)
        ELSE IF ~IsX(l) THEN Apply("merge", <<l[1][2], Tail(l), a[3], a[4]>>, e.w)
        ELSE LET d == Elim(a[4], e.w)  r == d.v IN
             IF r = <<>> THEN Res(NameOp(a[1], l), d.w)
             ELSE IF ~IsX(r) THEN Apply("merge", <<a[1], l, r[1][2], Tail(r)>>, d.w)
             ELSE LET w == Call(d.w, "cmp " \o ToString(l[1][2]) \o " " \o ToString(r[1][2]))
                      left == l[1][2] <= r[1][2]
                      h == IF left THEN l[1] ELSE r[1]
                      n == IF left THEN a[1] ELSE a[3]
                      more == IF left THEN <<"", Tail(l), a[3], r>> ELSE <<a[1], l, "", Tail(r)>>
                  IN IF n = "" THEN Prepend(h, Apply("merge", more, w))
                     ELSE LET w2 == Thunk(w, FL(n), "merge", more) IN Res(<<<<"n", FR(n)>>, h, Art(w2, FL(n))>>, w2)
Apply(f, a, w) ==
    CASE f \in {"map_eager", "map_eager2", "map_lazy", "filter_eager", "filter_lazy"} -> DoMap(f, a, w)
      [] f = "reverse" -> DoReverse(a, w)
      [] f = "tree" -> DoTree(a, w)
      [] f = "seq" -> DoSeq(a, w)
      [] f = "up" -> DoUp(a, w)
      [] f = "dn" -> DoDn(a, w)
      [] f = "merge" -> DoMerge(a, w)
      [] f = "op" -> Op(a[1], a[2], w)

Op(op, x, w) == (* x: the input list or tree. *)
    CASE op \in {"map_eager", "map_eager2", "map_lazy", "filter_eager", "filter_lazy"} -> Apply(op, <<x>>, w)
      [] op = "reverse" -> Apply(op, <<x, <<>>>>, w)
      [] op = "list_L" -> Apply("seq", <<"list", x, "R", <<>>>>, w)
      [] op = "list_R" -> Apply("seq", <<"list", x, "L", <<>>>>, w)
      [] op = "filter_list" -> Apply("seq", <<"filter", x, "R", <<>>>>, w)
      [] op = "up" -> Apply("up", <<"show", x>>, w)
      [] op = "dn" -> Apply("dn", <<"show", x, "">>, w)
      [] op = "monoid" -> Apply("up", <<"monoid", x>>, w)
      [] op = "filter_tree" -> Apply("up", <<"filter", x>>, w)
      [] op = "eager" -> Apply("up", <<"eager", x>>, w)
      [] op = "prune" -> Apply("up", <<"prune", x>>, w)
      [] op = "sort1" -> Apply("up", <<"sort1", x>>, w)
      [] op = "sort2" -> Apply("dn", <<"sort2", x, Str("_new")>>, w)
      [] op = "sort3" -> Apply("dn", <<"sort3", x, Str("_new")>>, w)

(* ---- steps ---- *)
(* The input of a step: names are followed by cells. *)
RECURSIVE Listed(_, _)
Listed(q, ns) == IF q = <<>> THEN <<>> ELSE IF Head(q)[1] = "x" THEN <<Head(q)>> \o Listed(Tail(q), ns)
                 ELSE <<<<"n", Str(Head(q)[2])>>, <<"a", ns \o "/" \o Str(Head(q)[2])>>>>
Inputs(q, w) ==
    LET names == {i \in DOMAIN q : q[i][1] = "n"} IN
    [w EXCEPT !.cell = [key \in {"/input/" \o Str(q[i][2]) : i \in names} |->
                          LET i == CHOOSE i \in names : key = "/input/" \o Str(q[i][2]) IN Listed(SubSeq(q, i + 1, Len(q)), "/input")]]
ListOps == {"map_eager", "map_eager2", "map_lazy", "filter_eager", "filter_lazy", "reverse"}
Text(op, v, w) == IF op \in {"filter_tree", "prune", "eager", "tree"} THEN Term(v, w) ELSE IF op \in {"up", "dn", "monoid"} THEN Res(v, w) ELSE Upto(v, w)
Fresh(w) == [w EXCEPT !.runs = <<>>, !.calls = <<>>, !.obs = <<>>]
(* An operation, within a thunk or not, and the demand of its whole output. *)
Operated(op, within, x, w0) ==
    LET r == In(op, LAMBDA w : IF within THEN Memo(w, "op", "op", <<op, x>>) ELSE Op(op, x, w), Fresh(w0))
        o == Text(op, r.v, r.w)
    IN [op |-> op, v |-> r.v, out |-> o.v, runs |-> o.w.runs, calls |-> o.w.calls, w |-> o.w]
Treed(dir, l, w0) ==
    LET r == In("tree", LAMBDA w : Apply("tree", <<dir, l, <<"nil">>, 0, MaxLev>>, w), Fresh(w0))
        o == Term(r.v[1], r.w)
    IN [op |-> "tree", v |-> r.v[1], out |-> o.v, runs |-> o.w.runs, calls |-> o.w.calls, w |-> o.w]
(* What a step does, for each operation, after making the tree. *)
Step(q, par, ops) ==
    LET l == Listed(q, "/input")
        t == Treed(par.dir, l, Inputs(q, World(par)))
        all == FoldLeft(LAMBDA acc, op : Append(acc, Operated(op, par.within, IF op \in ListOps THEN l ELSE t.v, Last(acc).w)), <<t>>, ops)
    IN [i \in DOMAIN all |-> [op |-> all[i].op, out |-> all[i].out, runs |-> all[i].runs, calls |-> all[i].calls]]
(* The runs that there is a reason for, given those of the step before. *)
Due(runs, before) == SelectSeq(runs, LAMBDA x : ~\E i \in DOMAIN before : before[i].key = x.key /\ before[i].sig = x.sig)
CallsOf(runs) == Concat([i \in DOMAIN runs |-> runs[i].calls])
Occurs(c, q) == Cardinality({i \in DOMAIN q : q[i] = c})
Within(q, p) == \A c \in Range(q) : Occurs(c, q) <= Occurs(c, p)

(* ---- exploration: an editor at work on a list with two names at most ---- *)
AllOps == <<"map_eager", "map_eager2", "map_lazy", "filter_eager", "filter_lazy", "reverse", "list_L", "list_R", "filter_list", "up", "dn", "monoid",
            "filter_tree", "prune", "eager", "sort1", "sort2", "sort3">>
Init == s = [q |-> <<>>, h |-> <<<<>>>>, k |-> 0]
PutAt(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
DeleteAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
NamesIn(q) == {q[j][2] : j \in {j \in DOMAIN q : q[j][1] = "n"}}
Edits(x) ==
    {PutAt(x.q, i, <<"x", k>>) : i \in 0..Len(x.q), k \in {3, 1, 2}}
    \cup {PutAt(x.q, i, <<"n", nm>>) : i \in 0..Len(x.q), nm \in {"a", "b"} \ NamesIn(x.q)}
    \cup {DeleteAt(x.q, i) : i \in DOMAIN x.q}
    \cup {[x.q EXCEPT ![i] = <<"x", k>>] : i \in {i \in DOMAIN x.q : x.q[i][1] = "x"}, k \in {1, 2, 3}}
Next == /\ s.k < MaxEdits
        /\ \E q \in Edits(s) : q # s.q /\ s' = [q |-> q, h |-> Append(s.h, q), k |-> s.k + 1]
        /\ Export => PrintT(<<"H", ToJson(s'.h)>>)
(* Some levels. *)
Par0 == [pred |-> <<"lt", 2>>, dir |-> "L", within |-> FALSE, levs |-> [x \in {"1", "2", "3"} |-> IF x = "2" THEN 2 ELSE 0], nlevs |-> [x \in {Str("a"), Str("b")} |-> IF x = Str("a") THEN 1 ELSE 0]]
Xs(q) == LET e == SelectSeq(q, LAMBDA i : i[1] = "x") IN [i \in DOMAIN e |-> e[i][2]]
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Sorted(q) == \A i \in 1..(Len(q) - 1) : q[i] <= q[i + 1]
RECURSIVE Part(_, _)  (* The elements from the i-th item on up to the next name, and that. *)
Part(q, i) == IF i > Len(q) THEN <<>> ELSE IF q[i][1] = "n" THEN <<q[i]>> ELSE <<q[i]>> \o Part(q, i + 1)
NameAt(q, n) == CHOOSE i \in DOMAIN q : q[i] = <<"n", n>>
(* The functions compute what they are named after; what need not run again is what is between the same names as before. *)
Laws(h) ==
    LET q == Last(h)  xs == Xs(q)
        now == Step(q, Par0, AllOps)
        old == IF Len(h) = 1 THEN <<>> ELSE Step(h[Len(h) - 1], Par0, AllOps)
        at(op) == now[CHOOSE i \in DOMAIN now : now[i].op = op]
        due(op) == LET i == CHOOSE i \in DOMAIN now : now[i].op = op IN Due(now[i].runs, IF old = <<>> THEN <<>> ELSE old[i].runs)
        out(op) == Xs(at(op).out)
        p == IF Len(h) = 1 THEN <<>> ELSE h[Len(h) - 1]
        same(n) == n \in NamesIn(p) /\ Part(q, NameAt(q, n) + 1) = Part(p, NameAt(p, n) + 1)
    IN /\ \A op \in {"map_eager", "map_eager2", "map_lazy"} : out(op) = [i \in DOMAIN xs |-> xs[i] + 1]
       /\ \A op \in {"filter_eager", "filter_lazy", "filter_list"} : out(op) = SelectSeq(xs, LAMBDA k : k < 2)
       /\ out("reverse") = Rev(xs) /\ out("list_R") = Rev(xs) /\ out("list_L") = xs
       /\ \A op \in {"sort1", "sort2", "sort3"} : Sorted(out(op)) /\ Len(out(op)) = Len(xs) /\ \A k \in 1..3 : Occurs(k, out(op)) = Occurs(k, xs)
       /\ at("eager").out = at("tree").out
       /\ \A op \in {"map_lazy", "filter_lazy"} : {due(op)[i].key : i \in DOMAIN due(op)} = {"/" \o op \o "/" \o Str(n) : n \in {n \in NamesIn(q) : ~same(n)}}
       /\ \A op \in Range(AllOps) : p = q => due(op) = <<>>
Holds == Laws(s.h)

(* ---- judging ---- *)
(* r.steps: the inputs; r.ops; for each step, r.got[k][op]: the output, the calls, the number of runs. *)
JudgedStep(r, k, now, before) ==
    Concat([i \in DOMAIN now |->
        LET o == now[i].op  g == r.got[k][o]
            due == Due(now[i].runs, IF before = <<>> THEN <<>> ELSE before[i].runs)
            calls == now[i].calls \o CallsOf(due)
        IN Complain(g.out # now[i].out, <<"step", k, o, "yields", g.out, "not", now[i].out>>)
           \o Complain(~Within(g.calls, calls), <<"step", k, o, "calls", g.calls, "due", calls>>)
           \o Complain(g.runs > Len(due), <<"step", k, o, "runs", g.runs, "due", Len(due)>>)])
Verdict(r) ==
    IF r.died # "" THEN <<"the program ended: " \o r.died>>
    ELSE LET all == [k \in DOMAIN r.steps |-> Step(r.steps[k], r, r.ops)]
         IN Concat([k \in DOMAIN r.steps |-> JudgedStep(r, k, all[k], IF k = 1 THEN <<>> ELSE all[k - 1])])
JNext == JudgeWith(Verdict)
====
