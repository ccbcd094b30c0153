---- MODULE Ambig ----
(* Ambiguous names (C10): what happens when one name, in one namespace, is used for contents of
   different types, or for thunks of different code.  A location keeps the type of its results
   forever; a thunk at a location keeps its code (program point, and types of the arguments) until a
   cell of the same type replaces it.  Allocations that would break this are refused, and change
   nothing.  Contents are a type and a number ("core"); the result of a thunk tells its code, the
   type of its argument, and its argument. *)
EXTENDS Judging
CONSTANTS MaxOps

(* An operation: <<mode, kind, ...>>, mode "e" (by the editor) or "t" (by the body of a fresh thunk).
     cell path name type core        thunk path name code core      code = <<symbol, argument type, result type, spurious type>>
     scell path type core            sthunk path code core          (structural identity; such cells cannot be set)
     watch path name symbol handle   a thunk whose argument is an articulation, of type U; it demands it
     swatch path symbol handle       the same, by structural identity
     naive code core    put type core    tmap number handle      unnamed articulations, equal if made alike
     force handle    fmap handle     set handle core      same handle handle    (are they equal?)
   A handle is the number of the operation that allocated it. *)
TyIx(t) == CASE t = "U" -> 1 [] t = "I" -> 2 [] t = "S" -> 3 [] t = "P" -> 4 [] t = "W" -> 5 [] t = "A" -> 6
Digits(n) == ToString(n)
Where(path, id) == path \o ":" \o id
CodeStr(c) == Digits(c[1]) \o c[2] \o c[3] \o c[4]

Mut(t, k) == [k |-> "mut", ty |-> t, core |-> k, code |-> <<>>, at |-> ""]
Comp(c, k, at) == [k |-> "comp", ty |-> c[3], core |-> k, code |-> c, at |-> at]

RECURSIVE Core(_, _)
Core(tb, n) == IF n.k = "mut" THEN n.core
               ELSE n.code[1] * 100 + TyIx(n.code[2]) * 10 + (IF n.at = "" THEN n.core ELSE Core(tb, tb[n.at]))
Result(tb, l) == <<tb[l].ty, Core(tb, tb[l])>>

Refused(x) == [tb |-> x.tb, hs |-> Append(x.hs, <<>>), out |-> <<"panic">>]
Skipped(x) == [tb |-> x.tb, hs |-> Append(x.hs, <<>>), out |-> <<"skip">>]
Ok(x, tb, h, out) == [tb |-> tb, hs |-> Append(x.hs, h), out |-> out]
Store(tb, l, n) == [m \in DOMAIN tb \cup {l} |-> IF m = l THEN n ELSE tb[m]]

AllocCell(x, l, t, k, struct) ==
    IF l \in DOMAIN x.tb /\ x.tb[l].ty # t THEN Refused(x)
    ELSE Ok(x, Store(x.tb, l, Mut(t, k)), <<l, t, struct>>, <<"ok">>)
AllocThunk(x, l, c, k, at) ==
    IF l \in DOMAIN x.tb /\ (x.tb[l].ty # c[3] \/ (x.tb[l].k = "comp" /\ x.tb[l].code # c)) THEN Refused(x)
    ELSE Ok(x, Store(x.tb, l, Comp(c, k, at)), <<l, c[3], FALSE>>, <<"ok">>)
(* Unnamed articulations are values: those made alike are the same, and none of them can be set. *)
Unnamed(x, l, n) == Ok(x, Store(x.tb, l, n), <<l, n.ty, TRUE>>, <<"ok">>)

Do(x, op) ==
    LET Known(h) == h \in DOMAIN x.hs /\ x.hs[h] # <<>>
        At(h) == x.hs[h][1]
    IN CASE op[2] = "cell"   -> AllocCell(x, Where(op[3], op[4]), op[5], op[6], FALSE)
         [] op[2] = "thunk"  -> AllocThunk(x, Where(op[3], op[4]), op[5], op[6], "")
         [] op[2] = "scell"  -> AllocCell(x, Where(op[3], "#" \o op[4] \o Digits(op[5])), op[4], op[5], TRUE)
         [] op[2] = "sthunk" -> AllocThunk(x, Where(op[3], "#" \o CodeStr(op[4]) \o "(" \o Digits(op[5]) \o ")"), op[4], op[5], "")
         [] op[2] = "watch"  -> IF ~Known(op[6]) \/ x.hs[op[6]][2] # "U" THEN Skipped(x)
                                ELSE AllocThunk(x, Where(op[3], op[4]), <<op[5], "A", "S", "unit">>, 0, At(op[6]))
         [] op[2] = "swatch" -> IF ~Known(op[5]) \/ x.hs[op[5]][2] # "U" THEN Skipped(x)
                                ELSE AllocThunk(x, Where(op[3], "#" \o Digits(op[4]) \o "A(" \o At(op[5]) \o ")"), <<op[4], "A", "S", "unit">>, 0, At(op[5]))
         [] op[2] = "naive"  -> Unnamed(x, "~" \o CodeStr(op[3]) \o "(" \o Digits(op[4]) \o ")", Comp(op[3], op[4], ""))
         [] op[2] = "put"    -> Unnamed(x, "=" \o op[3] \o Digits(op[4]), Mut(op[3], op[4]))
         [] op[2] = "tmap"   -> IF ~Known(op[4]) \/ x.hs[op[4]][2] # "U" THEN Skipped(x)
                                ELSE Unnamed(x, "*" \o Digits(op[3]) \o "(" \o At(op[4]) \o ")", Comp(<<op[3], "A", "U", "map">>, 0, At(op[4])))
         [] op[2] = "same"   -> IF ~Known(op[3]) \/ ~Known(op[4]) \/ x.hs[op[3]][2] # x.hs[op[4]][2] THEN Skipped(x)
                                ELSE Ok(x, x.tb, <<>>, IF At(op[3]) = At(op[4]) THEN <<"yes">> ELSE <<"no">>)
         [] op[2] \in {"force", "fmap"} -> IF ~Known(op[3]) THEN Skipped(x) ELSE Ok(x, x.tb, <<>>, Result(x.tb, At(op[3])))
         [] op[2] = "set"    -> IF ~Known(op[3]) THEN Skipped(x)
                                ELSE IF op[1] = "t" \/ x.tb[At(op[3])].k # "mut" \/ x.hs[op[3]][3] THEN Refused(x)
                                ELSE Ok(x, Store(x.tb, At(op[3]), [x.tb[At(op[3])] EXCEPT !.core = op[4]]), <<>>, <<"ok">>)

(* ---- exploration ---- *)
Empty == [tb |-> <<>>, hs |-> <<>>, out |-> <<"ok">>]
Codes == {<<1, "U", "U", "unit">>, <<2, "U", "U", "unit">>, <<1, "I", "U", "unit">>, <<1, "U", "I", "unit">>, <<1, "U", "S", "unit">>, <<1, "U", "U", "num">>}
Ops(x) == {<<"e", "cell", "", "a", t, 1>> : t \in {"U", "I", "S"}}
          \cup {<<"e", "thunk", "", "a", c, 1>> : c \in Codes} \cup {<<"t", "thunk", "", "a", <<1, "U", "U", "unit">>, 2>>, <<"t", "cell", "", "a", "U", 2>>}
          \cup {<<"t", "thunk", "", "a", c, 1>> : c \in {<<1, "U", "I", "unit">>, <<2, "U", "U", "unit">>}}
          \cup {<<"e", "scell", "", t, 1>> : t \in {"U", "I"}} \cup {<<"e", "sthunk", "", c, 1>> : c \in {<<1, "U", "U", "unit">>, <<1, "W", "U", "unit">>}}
          \cup {<<"e", "naive", c, 1>> : c \in {<<1, "U", "U", "unit">>, <<1, "I", "U", "unit">>}} \cup {<<"e", "put", "U", 1>>}
          \cup {<<"e", "swatch", "", 1, h>> : h \in DOMAIN x.hs} \cup {<<"e", "tmap", 1, h>> : h \in DOMAIN x.hs}
          \cup {<<"e", "watch", "", "a", 1, h>> : h \in DOMAIN x.hs} \cup {<<"e", "watch", "", "b", 1, h>> : h \in DOMAIN x.hs}
          \cup {<<"e", "force", h>> : h \in DOMAIN x.hs} \cup {<<"e", "set", h, 3>> : h \in DOMAIN x.hs}
Init == s = [x |-> Empty, was |-> Empty, hist |-> <<>>]
Next == /\ Len(s.hist) < MaxOps
        /\ \E op \in Ops(s.x) :
             LET x == Do(s.x, op) IN
             /\ x.out # <<"skip">>
             /\ s' = [x |-> x, was |-> s.x, hist |-> Append(s.hist, op)]
        /\ Export => PrintT(<<"H", ToJson(s'.hist)>>)
(* Articulations keep their types; what is refused changes nothing. *)
Holds == /\ \A h \in DOMAIN s.x.hs : s.x.hs[h] # <<>> => Result(s.x.tb, s.x.hs[h][1])[1] = s.x.hs[h][2]
         /\ s.x.out = <<"panic">> => s.x.tb = s.was.tb
         /\ \A l \in DOMAIN s.was.tb : s.x.tb[l].ty = s.was.tb[l].ty

(* ---- judging: r.ops, r.outs ---- *)
RECURSIVE Expected(_, _, _)
Expected(x, ops, i) == IF i > Len(ops) THEN <<>> ELSE LET y == Do(x, ops[i]) IN <<y.out>> \o Expected(y, ops, i + 1)
Verdict(r) ==
    IF r.died # "" THEN <<"the program ended: " \o r.died>>
    ELSE LET e == Expected(Empty, r.ops, 1) IN
         Concat([i \in DOMAIN e |-> Complain(r.outs[i] # e[i], <<"operation", i, r.ops[i], "gave", r.outs[i], "expected", e[i]>>)])
JNext == JudgeWith(Verdict)
====
