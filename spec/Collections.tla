---- MODULE Collections ----
(* Lists, trees and mergesort (C18, C19, C20), at the level of sequences.

   A list is a sequence of items: <<"x", k>> an element, <<"n", nm>> a name, and articulations that
   hold the rest: <<"c", nm>> a cell, <<"t", nm>> a thunk, <<"p">> a value.  A tree is a term:
   <<"nil">>, <<"leaf", k>>, <<"bin", lev, l, r>>, <<"name", nm, lev, l, r>>, and articulations
   <<"cell", nm, t>>, <<"thunk", nm, t>>, <<"put", t>>.  Operations are functions on these, blind to
   the articulations.  An editor changes the list or tree from step to step; the answer to every
   operation at every step is that of the function, however it is demanded. *)
EXTENDS Judging
CONSTANTS MaxEdits

(* ---- lists ---- *)
Plain(q) == SelectSeq(q, LAMBDA i : i[1] \in {"x", "n"})
Xs(q) == LET e == SelectSeq(q, LAMBDA i : i[1] = "x") IN [i \in DOMAIN e |-> e[i][2]]
Names(q) == LET e == SelectSeq(q, LAMBDA i : i[1] = "n") IN [i \in DOMAIN e |-> e[i][2]]
Items(xs) == [i \in DOMAIN xs |-> <<"x", xs[i]>>]
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Take(q, n) == SubSeq(q, 1, IF n < Len(q) THEN n ELSE Len(q))
(* What tests do: keep numbers below / not below p[2], or of parity p[2]. *)
Pred(p, k) == CASE p[1] = "lt" -> k < p[2] [] p[1] = "ge" -> k >= p[2] [] p[1] = "par" -> k % 2 = p[2]
Fun(f, k) == f[1] * k + f[2]
Kept(q, p) == SelectSeq(q, LAMBDA i : i[1] = "n" \/ Pred(p, i[2]))
Mapped(q, f) == [i \in DOMAIN q |-> IF q[i][1] = "x" THEN <<"x", Fun(f, q[i][2])>> ELSE q[i]]
(* Sorting, stably. *)
RECURSIVE Insert(_, _), Sort(_)
Insert(q, k) == IF q = <<>> THEN <<k>> ELSE IF k < Head(q) THEN <<k>> \o q ELSE <<Head(q)>> \o Insert(Tail(q), k)
Sort(q) == IF q = <<>> THEN <<>> ELSE Insert(Sort(Front(q)), Last(q))
Ordered(q) == \A i \in 1..(Len(q) - 1) : q[i] <= q[i + 1]
Count(q, k) == Cardinality({i \in DOMAIN q : q[i] = k})
(* Up to where a list can be popped to: what follows its first element. *)
RECURSIVE AfterX(_)
AfterX(q) == IF Head(q)[1] = "x" THEN Tail(q) ELSE AfterX(Tail(q))
(* Filtering a tree into a list keeps exactly one of the names between kept elements, if any. *)
RECURSIVE SubSeqOf(_, _)
SubSeqOf(a, b) == \/ a = <<>> \/ (b # <<>> /\ (IF Head(a) = Head(b) THEN SubSeqOf(Tail(a), Tail(b)) ELSE SubSeqOf(a, Tail(b))))
RECURSIVE Segments(_, _)
Segments(q, acc) == IF q = <<>> THEN <<acc>> ELSE IF Head(q)[1] = "x" THEN <<acc>> \o Segments(Tail(q), <<>>) ELSE Segments(Tail(q), Append(acc, Head(q)[2]))
FilteredOk(out, q, p) ==
    LET k == Kept(q, p) IN
    /\ Xs(out) = Xs(k)
    /\ LET o == Segments(out, <<>>)  b == Segments(k, <<>>) IN
       \A i \in DOMAIN o : /\ SubSeqOf(o[i], b[i])
                           /\ i \in 2..(Len(o) - 1) => Len(o[i]) = (IF b[i] = <<>> THEN 0 ELSE 1)

(* ---- trees ---- *)
RECURSIVE Strip(_), Seq_(_), Prune(_), HeapOk(_, _), Show(_), ShowDn(_, _), Walk(_, _), Cut(_, _)
Strip(t) ==
    CASE t[1] = "bin" -> <<"bin", t[2], Strip(t[3]), Strip(t[4])>>
      [] t[1] = "name" -> <<"name", t[2], t[3], Strip(t[4]), Strip(t[5])>>
      [] t[1] \in {"cell", "thunk"} -> Strip(t[3])
      [] t[1] = "put" -> Strip(t[2])
      [] OTHER -> t
(* The rest is about trees without articulations. *)
Seq_(t) ==
    CASE t[1] = "nil" -> <<>>
      [] t[1] = "leaf" -> <<<<"x", t[2]>>>>
      [] t[1] = "bin" -> Seq_(t[3]) \o Seq_(t[4])
      [] t[1] = "name" -> Seq_(t[4]) \o <<<<"n", t[2]>>>> \o Seq_(t[5])
LevOf(t) == CASE t[1] \in {"nil", "leaf"} -> 0 [] t[1] = "bin" -> t[2] [] t[1] = "name" -> t[3]
(* Levels do not grow downwards. *)
HeapOk(t, lev) ==
    CASE t[1] = "bin" -> t[2] <= lev /\ HeapOk(t[3], t[2]) /\ HeapOk(t[4], t[2])
      [] t[1] = "name" -> t[3] <= lev /\ HeapOk(t[4], t[3]) /\ HeapOk(t[5], t[3])
      [] OTHER -> TRUE
Node(t, l, r) == IF l = <<"nil">> THEN r ELSE IF r = <<"nil">> THEN l
                 ELSE IF t[1] = "bin" THEN <<"bin", t[2], l, r>> ELSE <<"name", t[2], t[3], l, r>>
Kids(t) == IF t[1] = "bin" THEN <<t[3], t[4]>> ELSE <<t[4], t[5]>>
IsLeafy(t) == t[1] \in {"nil", "leaf"}
Prune(t) == IF IsLeafy(t) THEN t ELSE Node(t, Prune(Kids(t)[1]), Prune(Kids(t)[2]))
Cut(t, p) == IF t[1] = "nil" THEN t ELSE IF t[1] = "leaf" THEN (IF Pred(p, t[2]) THEN t ELSE <<"nil">>)
             ELSE Node(t, Cut(Kids(t)[1], p), Cut(Kids(t)[2], p))
Str(n) == ToString(n)
(* Folding upwards. *)
Show(t) ==
    CASE t[1] = "nil" -> "-"
      [] t[1] = "leaf" -> Str(t[2])
      [] t[1] = "bin" -> "(" \o Show(t[3]) \o " " \o Str(t[2]) \o " " \o Show(t[4]) \o ")"
      [] t[1] = "name" -> "(" \o Show(t[4]) \o " " \o t[2] \o ":" \o Str(t[3]) \o " " \o Show(t[5]) \o ")"
(* Likewise, with names handed down: a name goes to the next leaf or nil on its right. *)
ShowDn(t, nm) ==
    CASE t[1] = "nil" -> nm \o "-"
      [] t[1] = "leaf" -> nm \o Str(t[2])
      [] t[1] = "bin" -> "(" \o ShowDn(t[3], nm) \o " " \o nm \o Str(t[2]) \o " " \o ShowDn(t[4], "") \o ")"
      [] t[1] = "name" -> "(" \o ShowDn(t[4], nm) \o " " \o nm \o t[2] \o ":" \o Str(t[3]) \o " " \o ShowDn(t[5], t[2] \o "=") \o ")"
(* What a sequential fold visits. *)
Walk(t, dir) ==
    CASE t[1] = "nil" -> <<>>
      [] t[1] = "leaf" -> <<Str(t[2])>>
      [] OTHER -> LET a == Walk(Kids(t)[1], dir)  b == Walk(Kids(t)[2], dir)
                      m == <<IF t[1] = "bin" THEN "^" \o Str(t[2]) ELSE t[2] \o ":" \o Str(t[3])>>
                  IN IF dir = "L" THEN a \o m \o b ELSE b \o m \o a
(* A monoid that is not commutative: k stands for x |-> a * x + b, a = k / 10, b = k % 10, modulo 10. *)
Op(a, b) == ((((a \div 10) * (b \div 10)) % 10) * 10) + ((((a \div 10) * (b % 10)) + (a % 10)) % 10)
FoldMonoid(xs) == FoldLeft(Op, 10, [i \in DOMAIN xs |-> xs[i] % 100])
IsEmptyTree(t) == Xs(Seq_(t)) = <<>>
RECURSIVE AllLevels(_)
AllLevels(t) == IF IsLeafy(t) THEN {} ELSE {LevOf(t)} \cup AllLevels(Kids(t)[1]) \cup AllLevels(Kids(t)[2])

(* ---- exploration: an editor at work on a list with two names at most, and what the functions say ---- *)
Init == s = [q |-> <<>>, h |-> <<<<>>>>, k |-> 0]
PutAt(q, i, x) == SubSeq(q, 1, i) \o x \o SubSeq(q, i + 1, Len(q))
DeleteAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Edits(x) ==
    {PutAt(x.q, i, <<<<"x", k>>>>) : i \in 0..Len(x.q), k \in {3, 1, 2}}
    \cup {PutAt(x.q, i, <<<<"n", nm>>, <<"c", nm>>>>) : i \in 0..Len(x.q), nm \in {"a", "b"} \ {x.q[j][2] : j \in {j \in DOMAIN x.q : x.q[j][1] # "x"}}}
    \cup {DeleteAt(x.q, i) : i \in DOMAIN x.q}
    \cup {PutAt(DeleteAt(x.q, i), i - 1, <<<<"x", k>>>>) : i \in {i \in DOMAIN x.q : x.q[i][1] = "x"}, k \in {1, 2, 3}}
Next == /\ s.k < MaxEdits
        /\ \E q \in Edits(s) : q # s.q /\ s' = [q |-> q, h |-> Append(s.h, q), k |-> s.k + 1]
        /\ Export => PrintT(<<"H", ToJson(s'.h)>>)
(* Trees over a sequence, of two shapes. *)
RECURSIVE LeftTree(_), RightTree(_)
LeftTree(q) == IF q = <<>> THEN <<"nil">> ELSE IF Last(q)[1] = "x" THEN (IF Len(q) = 1 THEN <<"leaf", q[1][2]>> ELSE <<"bin", Len(q), LeftTree(Front(q)), <<"leaf", Last(q)[2]>>>>)
               ELSE <<"name", Last(q)[2], Len(q), LeftTree(Front(q)), <<"nil">>>>
RightTree(q) == IF q = <<>> THEN <<"nil">> ELSE IF Head(q)[1] = "x" THEN <<"bin", Len(q), <<"leaf", Head(q)[2]>>, RightTree(Tail(q))>>
                ELSE <<"name", Head(q)[2], Len(q), <<"nil">>, RightTree(Tail(q))>>
Laws(q) ==
    LET p == <<"lt", 2>>  xs == Xs(q) IN
    /\ Ordered(Sort(xs)) /\ Len(Sort(xs)) = Len(xs) /\ \A k \in 1..3 : Count(Sort(xs), k) = Count(xs, k)
    /\ Xs(Kept(q, p)) = SelectSeq(xs, LAMBDA k : k < 2) /\ Names(Kept(q, p)) = Names(q)
    /\ \A t \in {LeftTree(q), RightTree(q)} :
         /\ Seq_(t) = q /\ Prune(Prune(t)) = Prune(t) /\ Xs(Seq_(Prune(t))) = xs /\ Xs(Seq_(Cut(t, p))) = Xs(Kept(q, p))
         /\ SubSeqOf(Names(Seq_(Prune(t))), Names(q)) /\ HeapOk(t, Len(q)) /\ Rev(Walk(t, "L")) = Walk(t, "R")
         /\ (Prune(t) = <<"nil">>) = IsEmptyTree(t)
    /\ FilteredOk(Kept(q, <<"ge", 0>>), q, <<"ge", 0>>) = (\A i \in DOMAIN Segments(q, <<>>) : i \in 2..(Len(Segments(q, <<>>)) - 1) => Len(Segments(q, <<>>)[i]) <= 1)
    /\ FoldMonoid(xs \o xs) = Op(FoldMonoid(xs), FoldMonoid(xs))
Holds == Laws(Plain(s.q))

(* ---- judging ---- *)
Prefix(out, n) == Take(out, n)
(* A generated list: each element followed by its index as a name. *)
Generated(n, f) == [i \in 1..(2 * n) |-> IF i % 2 = 1 THEN <<"x", Fun(f, i \div 2)>> ELSE <<"n", "#" \o ToString(i \div 2 - 1)>>]
ListOk(r, op, q, out) ==
    LET xs == Xs(q) IN
    CASE op = "vec" -> out = q
      [] op = "elim" -> out = q
      [] op = "limit" -> out = Take(q, r.lim)
      [] op = "demand" -> out = Take(q, r.lim)
      [] op = "is_empty" -> out = (xs = <<>>)
      [] op = "is_name" -> out = (q # <<>> /\ q[1][1] = "n")
      [] op = "map_lazy" -> Xs(out) = Xs(Mapped(q, r.fun))
      [] op = "map_eager" -> out = Mapped(q, r.fun)
      [] op = "map_eager2" -> Xs(out) = Xs(Mapped(q, r.fun)) /\ Len(out) = Len(q) /\ \A i \in DOMAIN q : out[i][1] = q[i][1]
      [] op = "filter_lazy" -> Xs(out) = Xs(Kept(q, r.pred))
      [] op = "filter_eager" -> out = Kept(q, r.pred)
      [] op = "reverse" -> Xs(out) = Rev(xs)
      [] op = "reverse_onto" -> Xs(out) = Rev(xs) \o Xs(Plain(r.other))
      [] op = "fold" -> out = Rev(xs)
      [] op = "push" -> out = <<<<"x", 7>>>> \o q
      [] op = "pop" -> out = IF xs = <<>> THEN <<"empty">> ELSE <<"popped", Head(xs), AfterX(q)>>
      [] op = "append" -> out = Items(xs) \o Plain(r.other)
      [] op = "name_art" -> out = <<<<"n", "_new">>>> \o q
      [] op = "name_art_none" -> out = q
      [] op = "name_op" -> out = <<<<"n", "_new">>>> \o q
      [] op = "name_art_op" -> out = <<<<"n", "_new">>>> \o q
      [] op = "gen" -> out = Generated(Len(xs), r.fun)
      [] op = "singleton" -> out = <<<<"x", 7>>>>
      [] op = "rebuild" -> out = q
      [] op = "of_vec" -> out = q
      [] op = "merge" -> Xs(out) = Sort(Sort(xs) \o Sort(Xs(r.other)))
(* t: the tree that the implementation had, without articulations. *)
TreeOk(r, op, t, out) ==
    LET q == Seq_(t)  xs == Xs(q) IN
    CASE op = "eager" -> out = t
      [] op = "list_L" -> out = q
      [] op = "list_R" -> out = Rev(q)
      [] op = "seq_L" -> out = Walk(t, "L")
      [] op = "seq_R" -> out = Walk(t, "R")
      [] op = "up" -> out = Show(t)
      [] op = "nm_dn" -> out = ShowDn(t, "")
      [] op = "nm_dn_some" -> out = ShowDn(t, "_new=")
      [] op = "monoid" -> out = FoldMonoid(xs)
      [] op = "filter_list" -> FilteredOk(out, q, r.pred)
      [] op = "filter_tree" -> Xs(Seq_(out)) = Xs(Kept(q, r.pred)) /\ SubSeqOf(Names(Seq_(out)), Names(q))
      [] op = "prune" -> out = Prune(t)
      [] op = "tree_is_empty" -> out = IsEmptyTree(t)
      [] op = "is_nil" -> out = (t = <<"nil">>)
      [] op = "lev" -> t[1] = "leaf" \/ out = LevOf(t)
      [] op \in {"telim", "telim_ref", "telim_arg", "full_move"} -> out = t
      [] op \in {"sort1", "sort2", "sort3", "sort2_none", "sort3_none"} ->
           /\ Xs(out.all) = Sort(xs)
           /\ out.some = Take(out.all, r.lim)
TreeOps == {"eager", "list_L", "list_R", "seq_L", "seq_R", "up", "nm_dn", "nm_dn_some", "monoid", "filter_list", "filter_tree", "prune", "tree_is_empty",
            "is_nil", "lev", "telim", "telim_ref", "telim_arg", "full_move", "sort1", "sort2", "sort3", "sort2_none", "sort3_none"}

(* r.kind: "list" or "tree"; r.steps[k]: the input; r.ops: the operations; for each engine and step, r.dcg[k]
   and r.naive[k] with the answers, and for tree operations on lists (turned into trees, in direction
   r.dir) the tree that they used. *)
Judged(r, k, eng, a) ==
    LET q == Plain(r.steps[k])
        bad(b, op, x) == Complain(b, <<eng, "step", k, op, x>>)
        Tree == IF r.kind = "tree" THEN Strip(r.steps[k]) ELSE a["tree"]
    IN (IF r.kind = "list" /\ "tree" \in DOMAIN a
        THEN bad(Seq_(a["tree"]) # (IF r.dir = "L" THEN q ELSE Rev(q)), "tree_of_list", a["tree"])
             \o bad(~HeapOk(a["tree"], LevOf(a["tree"])), "levels of the tree", a["tree"])
        ELSE <<>>)
       \o Concat([i \in DOMAIN r.ops |->
            LET op == r.ops[i]  o == a[op] IN
            IF op \in TreeOps THEN bad(~TreeOk(r, op, Tree, o), op, o) ELSE bad(~ListOk(r, op, q, o), op, o)])
(* Laziness: r.work[1] is the work (calls of the function or test, or comparisons) before any demand of
   the output, r.work[k + 1] that up to and including the demand of its k-th element.  Lists are worked
   on only up to the next name; what was demanded once is not worked on again.

   Merging compares the two heads to produce an element.  When the smaller head has a name the rest is
   left for later, else the rest is produced too, up to the next element with a name.  A list being
   merged is a sequence of [v, nm, lz, c]: an element, whether it has a name, whether what follows is
   left for later, and the comparisons done in order to have it (and what follows, up to what is left
   for later).  [q, later]: such a sequence, and whether even its first element is left for later.
   pa, pb: the comparisons for the head of a, b have been done.  na, nb: there is a name for it. *)
Named(q, n) == IF n /\ q # <<>> THEN [q EXCEPT ![1].nm = TRUE] ELSE q
Done(q, p) == IF p /\ q # <<>> THEN [q EXCEPT ![1].c = 0] ELSE q
RECURSIVE Merging(_, _, _, _, _, _)
Merging(a, pa, na, b, pb, nb) ==
    IF a = <<>> THEN [q |-> Named(Done(b, pb), nb), later |-> ~pb]
    ELSE IF b = <<>> THEN [q |-> Named(Done(a, pa), na), later |-> FALSE]
    ELSE LET cost == 1 + (IF pa THEN 0 ELSE a[1].c) + (IF pb THEN 0 ELSE b[1].c)
             left == a[1].v <= b[1].v
             h == IF left THEN a[1] ELSE b[1]
             named == h.nm \/ (IF left THEN na ELSE nb)
             rest == IF left THEN Merging(Tail(a), FALSE, FALSE, b, TRUE, nb) ELSE Merging(a, TRUE, na, Tail(b), FALSE, FALSE)
         IN [later |-> FALSE,
             q |-> IF named \/ rest.later \/ rest.q = <<>> THEN <<[v |-> h.v, nm |-> named, lz |-> TRUE, c |-> cost]>> \o rest.q
                   ELSE <<[v |-> h.v, nm |-> FALSE, lz |-> FALSE, c |-> cost + rest.q[1].c]>> \o Done(rest.q, TRUE)]
Merge(a, na, b, nb) == Merging(a, FALSE, na, b, FALSE, nb).q
(* A plain list; sorting a tree in the three ways, where nm: there is a name handed down. *)
RECURSIVE Listed(_, _), Sorting(_, _, _)
Listed(q, nm) == IF q = <<>> THEN <<>> ELSE IF Head(q)[1] = "n" THEN Listed(Tail(q), TRUE)
                 ELSE <<[v |-> Head(q)[2], nm |-> nm, lz |-> FALSE, c |-> 0]>> \o Listed(Tail(q), FALSE)
Sorting(t, op, nm) ==
    CASE t[1] = "nil" -> <<>>
      [] t[1] = "leaf" -> <<[v |-> t[2], nm |-> nm /\ op # "sort1", lz |-> TRUE, c |-> 0]>>
      [] t[1] = "bin" -> Merge(Sorting(t[3], op, nm), FALSE, Sorting(t[4], op, FALSE), FALSE)
      [] t[1] = "name" -> Merge(Sorting(t[4], op, nm), op = "sort1", Sorting(t[5], op, TRUE), op # "sort3")
(* The comparisons before demand, for the first element, the second and so on. *)
Demands(q) == [j \in 1..(Len(q) + 1) |-> IF q = <<>> THEN 0 ELSE FoldLeft(LAMBDA x, y : x + y, 0, [i \in 1..(IF j = 1 THEN 1 ELSE j - 1) |-> q[i].c])]
RECURSIVE Height(_)
Height(t) == IF IsLeafy(t) THEN 0 ELSE LET a == Height(Kids(t)[1])  b == Height(Kids(t)[2]) IN 1 + (IF a < b THEN b ELSE a)
(* The number of elements before the first name after the j-th element that is kept. *)
RECURSIVE UpTo(_, _, _, _)
UpTo(q, keep(_), j, seen) ==
    IF q = <<>> THEN seen
    ELSE IF Head(q)[1] = "n" THEN (IF j = 0 THEN seen ELSE UpTo(Tail(q), keep, j, seen))
    ELSE UpTo(Tail(q), keep, IF j > 0 /\ keep(Head(q)[2]) THEN j - 1 ELSE j, seen + 1)
Separated(q) == \A i \in 1..(Len(q) - 1) : ~(q[i][1] = "x" /\ q[i + 1][1] = "x")
LazyVerdict(r) ==
    LET q == r.items  xs == Xs(q)  n == Len(xs)
        isSort == r.op \in {"sort1", "sort2", "sort3"}
        want == CASE r.op = "map_lazy" -> [i \in 1..n |-> xs[i] + 1]
                  [] r.op = "filter_lazy" -> SelectSeq(xs, LAMBDA k : Pred(r.pred, k))
                  [] OTHER -> Sort(xs \o Xs(r.other))
        keep(k) == r.op = "map_lazy" \/ Pred(r.pred, k)
        merged == IF isSort THEN Sorting(r.tree, r.op, r.op # "sort1") ELSE Merge(Listed(q, FALSE), FALSE, Listed(r.other, FALSE), FALSE)
        bound == IF isSort \/ r.op = "merge" THEN Demands(merged) ELSE [j \in DOMAIN r.work |-> IF n = 0 THEN 0 ELSE UpTo(q, keep, j - 1, 0)]
        few(j) == IF n = 0 THEN 0 ELSE (n - 1) + (IF j = 1 THEN 0 ELSE (j - 2) * Height(r.tree))
    IN IF r.died # "" THEN <<"the program ended: " \o r.died>>
       ELSE Complain(Xs(r.out) # want \/ r.out2 # r.out, <<r.op, r.out, r.out2>>)
            \o Complain(r.again # 0, <<r.op, "worked again", r.again>>)
            \o Complain(\E j \in DOMAIN r.work \cap DOMAIN bound : r.work[j] > bound[j], <<r.op, "too much work", r.work, bound>>)
            (* One comparison per merge, and then at most one per level. *)
            \o Complain(r.op = "sort1" /\ Separated(q) /\ \E j \in DOMAIN bound : bound[j] > few(j), <<"the bound is not what it should be", r.tree, bound>>)

(* Without cells, what the engines give is the same: trees have the shape that their sequence determines. *)
Alike(r, k) == Complain("tree" \in DOMAIN r.dcg[k] /\ r.dcg[k]["tree"] # r.naive[k]["tree"], <<"step", k, "trees differ", r.dcg[k]["tree"], r.naive[k]["tree"]>>)
Verdict(r) == IF r.kind = "lazy" THEN LazyVerdict(r) ELSE IF r.died # "" THEN <<"the program ended: " \o r.died>>
              ELSE Concat([k \in DOMAIN r.steps |-> Judged(r, k, "dcg", r.dcg[k]) \o Judged(r, k, "naive", r.naive[k])
                                                      \o (IF r.kind = "list" THEN Alike(r, k) ELSE <<>>)])
JNext == JudgeWith(Verdict)
====
