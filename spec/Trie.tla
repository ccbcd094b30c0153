---- MODULE Trie ----
(* Tries (C21).  A trie is a term over nil, leaf, bin, root, name and articulations (cells with a
   store, thunks, immediate values), holding elements 1..N, each with a path of bits.  Inserting
   keeps elements along their paths; looking up, folding, testing for emptiness, eliminating and
   splitting are defined on the terms.  The implementation's tries are built from the same terms;
   their cells are edited from one step to the next. *)
EXTENDS Judging
CONSTANTS MaxOps, Depth

(* ---- terms ---- *)
Nil == <<"nil">>
Leaf(x) == <<"leaf", x>>
Bin(l, r) == <<"bin", l, r>>

Content(cells, n) == LET i == CHOOSE i \in DOMAIN cells : cells[i][1] = n IN cells[i][2]

RECURSIVE Elems(_, _), Find(_, _, _, _), Empty(_, _), Visits(_, _, _), BinsFull(_, _)
(* The elements, in order. *)
Elems(t, c) ==
    CASE t[1] = "leaf" -> <<t[2]>>
      [] t[1] = "bin" -> Elems(t[2], c) \o Elems(t[3], c)
      [] t[1] \in {"root", "name", "thunk"} -> Elems(t[3], c)
      [] t[1] = "put" -> Elems(t[2], c)
      [] t[1] = "cell" -> Elems(Content(c, t[2]), c)
      [] OTHER -> <<>>
Find(t, c, x, path) ==
    CASE t[1] = "leaf" -> t[2] = x
      [] t[1] = "bin" -> IF Head(path) = 0 THEN Find(t[2], c, x, Tail(path)) ELSE Find(t[3], c, x, Tail(path))
      [] t[1] \in {"root", "name", "thunk"} -> Find(t[3], c, x, path)
      [] t[1] = "put" -> Find(t[2], c, x, path)
      [] t[1] = "cell" -> Find(Content(c, t[2]), c, x, path)
      [] OTHER -> FALSE
(* A branch counts as non-empty: tries do not branch without need. *)
Empty(t, c) == Elems(t, c) = <<>>
BinsFull(t, c) ==
    CASE t[1] = "bin" -> Elems(t, c) # <<>> /\ BinsFull(t[2], c) /\ BinsFull(t[3], c)
      [] t[1] \in {"root", "name", "thunk"} -> BinsFull(t[3], c)
      [] t[1] = "put" -> BinsFull(t[2], c)
      [] t[1] = "cell" -> BinsFull(Content(c, t[2]), c)
      [] OTHER -> TRUE
(* What eliminating everything visits, in preorder, through articulations: the kind, and the bits
   that the node stands for, or what it carries. *)
Visits(t, c, p) ==
    CASE t[1] = "nil" -> <<<<"nil", p>>>>
      [] t[1] = "leaf" -> <<<<"leaf", p, t[2]>>>>
      [] t[1] = "bin" -> <<<<"bin", p>>>> \o Visits(t[2], c, Append(p, 0)) \o Visits(t[3], c, Append(p, 1))
      [] t[1] = "root" -> <<<<"root", t[2]>>>> \o Visits(t[3], c, p)
      [] t[1] = "name" -> <<<<"name", t[2]>>>> \o Visits(t[3], c, p)
      [] t[1] = "thunk" -> Visits(t[3], c, p)
      [] t[1] = "put" -> Visits(t[2], c, p)
      [] t[1] = "cell" -> Visits(Content(c, t[2]), c, p)
      [] t[1] = "empty" -> <<<<"name", "empty-l">>, <<"root", t[2]>>, <<"name", "empty-r">>, <<"nil", <<>>>>>>

(* Splitting a leaf: one level deeper, on the side of its next bit. *)
Split(t, path, d) == IF t[1] = "leaf" THEN (IF path[d + 1] = 0 THEN Bin(t, Nil) ELSE Bin(Nil, t)) ELSE t

(* ---- insertion, as a step of the exploration: [t |-> term, c |-> cells] ---- *)
RECURSIVE Insert(_, _, _, _, _)
Insert(t, c, x, paths, d) ==
    LET b == paths[x][d + 1]
        In(sub) == Insert(sub, c, x, paths, d + 1)
    IN
    CASE t[1] = "nil" -> IF d < Depth THEN (LET i == Insert(Nil, c, x, paths, d + 1) IN [t |-> IF b = 0 THEN Bin(i.t, Nil) ELSE Bin(Nil, i.t), c |-> c])
                         ELSE [t |-> Leaf(x), c |-> c]
      [] t[1] = "leaf" -> IF t[2] = x THEN [t |-> t, c |-> c] ELSE Insert(Split(t, paths[t[2]], d), c, x, paths, d)
      [] t[1] = "bin" -> IF b = 0 THEN LET i == In(t[2]) IN [t |-> Bin(i.t, t[3]), c |-> i.c]
                                  ELSE LET i == In(t[3]) IN [t |-> Bin(t[2], i.t), c |-> i.c]
      [] t[1] \in {"root", "name", "thunk"} -> LET i == Insert(t[3], c, x, paths, d) IN [t |-> <<t[1], t[2], i.t>>, c |-> i.c]
      [] t[1] = "put" -> LET i == Insert(t[2], c, x, paths, d) IN [t |-> <<"put", i.t>>, c |-> i.c]
      [] t[1] = "cell" -> LET i == Insert(Content(c, t[2]), c, x, paths, d)
                          IN [t |-> t, c |-> [k \in DOMAIN i.c |-> IF i.c[k][1] = t[2] THEN <<t[2], i.t>> ELSE i.c[k]]]

(* ---- exploration ---- *)
N == 5
Paths == <<<<0, 0, 0, 1, 0>>, <<1, 0, 1, 1, 0>>, <<0, 0, 1, 0, 1>>, <<1, 1, 0, 0, 0>>, <<0, 0, 1, 1, 0>>>>
Snap(x) == [t |-> x.t, c |-> x.c]
Start == [t |-> Nil, c |-> <<>>]
Fresh(x, k) == k \o ToString(Len(x.h))
Steps(x) ==
    {Insert(x.t, x.c, e, Paths, 0) : e \in 1..N}
    \cup {[t |-> <<"name", Fresh(x, "n"), x.t>>, c |-> x.c], [t |-> <<"root", Depth, x.t>>, c |-> x.c], [t |-> <<"put", x.t>>, c |-> x.c],
          [t |-> <<"thunk", Fresh(x, "t"), x.t>>, c |-> x.c], [t |-> <<"cell", Fresh(x, "c")>>, c |-> Append(x.c, <<Fresh(x, "c"), x.t>>)]}
    \cup (IF x.t[1] = "bin" THEN {[t |-> Bin(<<"cell", Fresh(x, "l")>>, x.t[3]), c |-> Append(x.c, <<Fresh(x, "l"), x.t[2]>>)],
                                  [t |-> Bin(x.t[2], <<"name", Fresh(x, "m"), <<"cell", Fresh(x, "r")>>>>), c |-> Append(x.c, <<Fresh(x, "r"), x.t[3]>>)]} ELSE {})
Init == s = [t |-> Nil, c |-> <<>>, h |-> <<Snap(Start)>>]
Next == /\ Len(s.h) <= MaxOps
        /\ \E x \in Steps(s) : x # Snap(s) /\ s' = [t |-> x.t, c |-> x.c, h |-> Append(s.h, Snap(x))]
        /\ Export => PrintT(<<"H", ToJson([steps |-> s'.h, paths |-> Paths])>>)

Set_(q) == {q[i] : i \in DOMAIN q}
(* Lookup finds exactly the stored elements; splitting keeps this; nothing is stored twice. *)
Holds == LET es == Elems(s.t, s.c) IN
         /\ \A x \in 1..N : Find(s.t, s.c, x, Paths[x]) = (x \in Set_(es))
         /\ Cardinality(Set_(es)) = Len(es)
         /\ BinsFull(s.t, s.c)
         /\ \A x \in 1..N, d \in 0..3 : Find(Split(Leaf(x), Paths[x], d), <<>>, x, SubSeq(Paths[x], d + 1, 5))

(* What the hash of a trie tells apart, at least: everything but what articulations hold (they are
   known by name, immediate ones by their content) and the depth at the root. *)
RECURSIVE Told(_)
Told(t) == CASE t[1] = "bin" -> <<"bin", Told(t[2]), Told(t[3])>>
             [] t[1] = "root" -> Told(t[3])
             [] t[1] = "put" -> Told(t[2])
             [] t[1] \in {"cell", "thunk"} -> <<"art", t[2]>>
             [] t[1] = "name" -> <<"name", t[2], Told(t[3])>>
             [] t[1] = "empty" -> <<"empty">>
             [] OTHER -> t

(* ---- judging: r.steps[k] is a snapshot, r.saw[k] what the implementation answers in it ---- *)
Judged(r, k) ==
    LET t == r.steps[k].t  c == r.steps[k].c  a == r.saw[k]
        es == Elems(t, c)
        v == Visits(t, c, <<>>)
        found == [x \in DOMAIN r.paths |-> Find(t, c, x, r.paths[x])]
        e(bad, what) == Complain(bad, <<"step", k>> \o what)
    IN e(a.find # found, <<"find", a.find, "expected", found>>)
       \o e(r.real /\ a.mem # found, <<"mem", a.mem, "expected", found>>)
       \o e(a.empty # Empty(t, c), <<"is_empty", a.empty>>)
       \o e(a.fold # es, <<"fold", a.fold, "expected", es>>)
       \o e(a.tfold # es, <<"trie_fold", a.tfold, "expected", es>>)
       \o e(a.nfold # es, <<"trie_fold, naive engine", a.nfold, "expected", es>>)
       \o Concat([j \in 1..3 |-> LET f == <<"elim", "elim_arg", "elim_ref">>[j] IN e(a[f] # v, <<f, a[f], "expected", v>>)])
       \o e(Told(r.steps[a.hash].t) # Told(t), <<"same hash as at step", a.hash>>)
       \o e(~a.again, <<"the same trie built twice differs">>)
Splits(r) == Concat([i \in DOMAIN r.splits |->
    LET x == r.splits[i].x  d == r.splits[i].d  p == SubSeq(r.paths[x], 1, d)
        e == Visits(Split(Leaf(x), r.paths[x], d), <<>>, p)
    IN Complain(r.split[i] # e, <<"split_atomic", x, d, r.split[i], "expected", e>>)])
Verdict(r) == IF r.died # "" THEN <<"the program ended: " \o r.died>>
              ELSE Concat([k \in DOMAIN r.steps |-> Judged(r, k)]) \o Splits(r)
JNext == JudgeWith(Verdict)
====
