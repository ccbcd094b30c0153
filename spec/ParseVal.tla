---- MODULE ParseVal ----
(* Reflected values are faithful (C17).  A value is a tree as its derived debug output shows it;
   Reflect says which reflected value must come out, from its debug output alone, of reflect_val
   and of the graph's nodes.  Strings are sequences of code points, numbers strings of digits;
   names are the terms of Names.tla; a location is a path of names and a name. *)
EXTENDS Judging
CONSTANT MaxDepth

Unit == <<"U">>
(* The name unit alone prints just like a constructor without arguments, and a struct without
   fields like one, too: nothing can tell them apart. *)
RECURSIVE Reflect(_)
Reflect(v) ==
    CASE v[1] = "nat" -> v
      [] v[1] = "num" -> IF v[3] THEN <<"num", v[2]>> ELSE <<"nat", v[2]>>   \* v[3]: is it negative
      [] v[1] = "bool" -> <<"con", v[2], <<>>>>
      [] v[1] = "str" -> v
      [] v[1] \in {"tup", "vec"} -> <<v[1], [i \in DOMAIN v[2] |-> Reflect(v[2][i])]>>
      [] v[1] = "con" -> <<"con", v[2], [i \in DOMAIN v[3] |-> Reflect(v[3][i])]>>
      [] v[1] = "struct" -> IF v[3] = <<>> THEN <<"con", v[2], <<>>>>
                            ELSE <<"struct", v[2], [i \in DOMAIN v[3] |-> <<v[3][i][1], Reflect(v[3][i][2])>>]>>
      [] v[1] = "name" -> IF v[2] = Unit THEN <<"con", "Unit", <<>>>> ELSE v
      [] v[1] \in {"cell", "thunk"} -> <<"art", v[2], v[3]>>
      [] v[1] = "hcell" -> <<"art", v[2], <<"H">>>>      \* in `structural`: named by a hash
      [] v[1] = "put" -> <<"struct", "Art", <<<<"art", Reflect(v[2])>>>>>>

RECURSIVE Size(_)
Kids(v) == CASE v[1] \in {"tup", "vec"} -> v[2]
             [] v[1] = "con" -> v[3]
             [] v[1] = "struct" -> [i \in DOMAIN v[3] |-> v[3][i][2]]
             [] v[1] = "put" -> <<v[2]>>
             [] OTHER -> <<>>
RECURSIVE Total(_)
Total(ks) == IF ks = <<>> THEN 0 ELSE Size(Head(ks)) + Total(Tail(ks))
Size(v) == 1 + Total(Kids(v))

(* ---- exploration: a value, wrapped again and again ---- *)
Lf == {<<"nat", "0">>, <<"num", "7", TRUE>>, <<"num", "7", FALSE>>, <<"bool", "true">>, <<"str", <<>>>>, <<"str", <<34, 92, 44, 41, 10, 233>>>>,
       <<"con", "Nil", <<>>>>, <<"struct", "E", <<>>>>, <<"tup", <<>>>>, <<"vec", <<>>>>,
       <<"name", Unit>>, <<"name", <<"L", Unit>>>>, <<"name", <<"P", <<"I", "-1">>, <<"R", <<"N", "3">>>>>>>>, <<"name", <<"S", <<97, 34, 40>>>>>>,
       <<"cell", <<>>, <<"S", <<99>>>>>>, <<"cell", <<<<"I", "-2">>, Unit>>, <<"P", Unit, <<"N", "1">>>>>>, <<"thunk", <<<<"L", <<"S", <<100>>>>>>>>, Unit>>,
       <<"hcell", <<>>, 5>>, <<"hcell", <<<<"N", "2">>>>, 6>>}
Side == {<<"nat", "1">>, <<"con", "Nil", <<>>>>, <<"name", <<"R", Unit>>>>, <<"str", <<93>>>>}
Wraps(v) == {<<"tup", <<v>>>>, <<"vec", <<v>>>>, <<"con", "Cons", <<v>>>>, <<"struct", "S_1", <<<<"f", v>>>>>>, <<"put", v>>}
    \cup UNION {{<<"tup", <<v, x>>>>, <<"tup", <<x, v>>>>, <<"vec", <<x, v>>>>, <<"con", "Some2", <<v, x>>>>, <<"con", "_C", <<x, v>>>>,
                 <<"struct", "S", <<<<"a", v>>, <<"b_2", x>>>>>>, <<"struct", "S", <<<<"a", x>>, <<"b_2", v>>, <<"c", x>>>>>>} : x \in Side}

Init == \E v \in Lf : s = [v |-> v, d |-> 0] /\ (Export => PrintT(<<"H", ToJson(v)>>))
Next == s.d < MaxDepth /\ \E v \in Wraps(s.v) : s' = [v |-> v, d |-> s.d + 1] /\ (Export => PrintT(<<"H", ToJson(v)>>))

(* Reflecting loses no part. *)
Holds == Size(Reflect(s.v)) = Size(s.v)

(* ---- judging ---- *)
Verdict(r) ==
    LET e == Reflect(r.v)
    IN IF r.died # "" THEN <<"the program ended: " \o r.died>>
       ELSE Concat([k \in 1..3 |-> LET f == <<"val", "incell", "inthunk">>[k] IN Complain(r[f] # e, <<f, r[f], "expected", e>>)])
            \o Complain(~r.keys, "a reflected articulation is no key of the reflected graph")
JNext == JudgeWith(Verdict)
====
