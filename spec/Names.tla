---- MODULE Names ----
(* Names form a free algebra (C13).  A name is a term over unit, strings, integers, pairs and the
   two halves of a fork; a program that makes names is a sequence of operations on a pool.  The
   implementation's names must be equal, be interchangeable as keys, and survive being copied,
   stored and reflected exactly as the terms are equal. *)
EXTENDS Judging
CONSTANT MaxOps

U == <<"U">>
Str(x) == <<"S", x>>
Nat_(n) == <<"N", n>>
Int_(n) == <<"I", n>>
Pair(a, b) == <<"P", a, b>>
L(a) == <<"L", a>>
R(a) == <<"R", a>>

(* What an operation adds to the pool. *)
Adds(pool, op) ==
    CASE op[1] = "unit" -> <<U>>
      [] op[1] \in {"str", "string"} -> <<Str(op[2])>>
      [] op[1] = "usize" -> <<Nat_(op[2])>>
      [] op[1] = "isize" -> <<Int_(op[2])>>
      [] op[1] = "pair" -> <<Pair(pool[op[2]], pool[op[3]])>>
      [] op[1] \in {"fork", "fork!", "forko!"} -> <<L(pool[op[2]]), R(pool[op[2]])>>
      [] op[1] = "fork3" -> LET n == pool[op[2]] IN <<L(n), L(R(n)), R(R(n))>>
      [] op[1] = "fork4" -> LET n == pool[op[2]] IN <<L(n), L(R(n)), L(R(R(n))), R(R(R(n)))>>
      [] op[1] = "clone" -> <<pool[op[2]]>>
      [] op[1] = "none" -> <<>>   \* forko!(None) is (None, None)

RECURSIVE Pool(_)
Pool(ops) == IF ops = <<>> THEN <<>> ELSE LET p == Pool(Front(ops)) IN p \o Adds(p, Last(ops))

Class(pool, i) == MinOf({j \in DOMAIN pool : pool[j] = pool[i]})
Classes(pool) == [i \in DOMAIN pool |-> Class(pool, i)]

RECURSIVE Sub(_)
Sub(t) == {t} \cup (CASE t[1] = "P" -> Sub(t[2]) \cup Sub(t[3]) [] t[1] \in {"L", "R"} -> Sub(t[2]) [] OTHER -> {})

(* The readable form of names, paths and locations (C17); unit, a symbol of its own, is shown as ^. *)
RECURSIVE Show(_)
Show(t) == CASE t[1] = "U" -> "^"
             [] t[1] = "P" -> Show(t[2]) \o "-" \o Show(t[3])
             [] t[1] = "L" -> Show(t[2]) \o "-l"
             [] t[1] = "R" -> Show(t[2]) \o "-r"
             [] OTHER -> t[2]
RECURSIVE ShowPath(_)
ShowPath(p) == IF p = <<>> THEN "__" ELSE ShowPath(Front(p)) \o Show(Last(p)) \o "__"
ShowLoc(p, n) == ShowPath(p) \o "_" \o Show(n)

(* ---- exploration ---- *)
Leaves == {<<"unit">>, <<"str", "a">>, <<"string", "a">>, <<"string", "1">>, <<"usize", "1">>, <<"isize", "1">>, <<"isize", "-1">>, <<"usize", "0">>}
Ops(pool) == Leaves \cup {<<"none">>}
    \cup {<<k, i>> : k \in {"fork", "fork!", "forko!", "fork3", "fork4", "clone"}, i \in DOMAIN pool}
    \cup {<<"pair", i, j>> : i \in DOMAIN pool, j \in DOMAIN pool}

Init == s = [pool |-> <<>>, hist |-> <<>>]
Next == /\ Len(s.hist) < MaxOps
        /\ \E op \in Ops(s.pool) : s' = [pool |-> s.pool \o Adds(s.pool, op), hist |-> Append(s.hist, op)]
        /\ Export => PrintT(<<"H", ToJson(s'.hist)>>)

(* Forking gives names that differ from each other, from the parent and from all its parts. *)
Fresh == \A i \in DOMAIN s.pool :
    LET n == s.pool[i]
        F3 == Adds(s.pool, <<"fork3", i>>)  F4 == Adds(s.pool, <<"fork4", i>>)
    IN /\ L(n) # R(n) /\ {L(n), R(n)} \cap Sub(n) = {}
       /\ Cardinality(Range(F3)) = 3 /\ Cardinality(Range(F4)) = 4
       /\ (Range(F3) \cup Range(F4)) \cap Sub(n) = {}
       /\ \A j \in DOMAIN s.pool : s.pool[j] # n => {L(n), R(n)} \cap {L(s.pool[j]), R(s.pool[j])} = {}
Holds == Fresh

(* ---- judging ---- *)
(* Each name of the pool, shown; and shown as the last of a path with the two before it. *)
Shown(r) ==
    LET p == Pool(r.ops)
        Before(i) == SubSeq(p, IF i > 2 THEN i - 2 ELSE 1, i - 1)
    IN IF r.died # "" THEN <<"the program ended: " \o r.died>>
       ELSE Complain(r.names # MapSeq(Show, p), <<"names", r.names, "expected", MapSeq(Show, p)>>)
            \o Complain(r.paths # [i \in DOMAIN p |-> ShowPath(Before(i))], <<"paths", r.paths>>)
            \o Complain(r.locs # [i \in DOMAIN p |-> ShowLoc(Before(i), p[i])], <<"locations", r.locs>>)
Same(r) ==
    LET p == Pool(r.ops)
        c == Classes(p)
    IN IF r.died # "" THEN <<"the program ended: " \o r.died>>
       ELSE IF Len(r.eq) # Len(p) THEN <<"wrong number of names">>
       ELSE Concat([k \in 1..10 |->
                LET f == <<"eq", "cell", "thunk", "ns", "stored", "asarg", "consed", "located", "reflected", "again">>[k]
                IN Complain(r[f] # c, <<f, r[f], "expected", c>>)])
            \o Complain(\E i, j \in DOMAIN p : p[i] = p[j] /\ r.hash[i] # r.hash[j], <<"equal names hash differently", r.hash, c>>)
            \o Complain(~r.none, "forko! of None")
Verdict(r) == IF "show" \in DOMAIN r THEN Shown(r) ELSE Same(r)
JNext == JudgeWith(Verdict)
====
