------------------------------- MODULE Families -------------------------------
(***************************************************************************)
(* Small archivist programs, each with a prologue of editor operations and *)
(* the editor operations among which histories are enumerated.  Register 1 *)
(* holds a body's argument.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL I(n) == <<"i", n>>
LOCAL P(a, b) == <<"p", a, b>>
LOCAL A(l) == <<"a", l>>
LOCAL S(n) == <<"s", n>>

LOCAL Sets(l, vs) == [i \in DOMAIN vs |-> <<"set", A(l), vs[i]>>]
LOCAL F(l) == <<"force", A(l)>>
LOCAL C(n, v) == <<"cell", <<>>, n, v>>
LOCAL T(n, c, a) == <<"thunk", <<>>, n, c, a>>

(* a chain with early cutoff: p = a mod 2; q = p + 1; r = q + a's high bit *)
Chain == [name |-> "chain",
  codes |-> << << <<"fmap", 2, 1, "id">>, <<"force", 3, 1>>, <<"proj", 3, "odd", 3>>, <<"ret", 3>> >>,
               << <<"force", 2, 1>>, <<"proj", 2, "inc", 2>>, <<"ret", 2>> >>,
               << <<"force", 2, 1>>, <<"glob", 3, ":a">>, <<"force", 3, 3>>, <<"proj", 3, "hi", 3>>,
                  <<"add", 2, 2, 3>>, <<"ret", 2>> >> >>,
  init |-> << C("a", I(1)), T("p", 1, A(":a")), T("q", 2, A(":p")), T("r", 3, A(":q")) >>,
  ops |-> Sets(":a", <<I(1), I(3), I(4)>>) \o << F(":p"), F(":q"), F(":r") >> ]

(* a branch: which of two thunks is demanded depends on c *)
Branch == [name |-> "branch",
  codes |-> << << <<"force", 2, 1>>, <<"proj", 2, "inc", 2>>, <<"ret", 2>> >>,
               << <<"glob", 2, ":c">>, <<"force", 2, 2>>, <<"jz", 2, 3>>,
                  <<"glob", 3, ":ta">>, <<"force", 3, 3>>, <<"ret", 3>>,
                  <<"glob", 3, ":tb">>, <<"force", 3, 3>>, <<"ret", 3>> >> >>,
  init |-> << C("a", I(1)), C("b", I(2)), C("c", I(0)), T("ta", 1, A(":a")), T("tb", 1, A(":b")), T("top", 2, I(0)) >>,
  ops |-> Sets(":c", <<I(0), I(1), I(2)>>) \o Sets(":a", <<I(5), I(6)>>) \o << <<"set", A(":b"), I(7)>>, F(":top"), F(":ta") >> ]

(* nested allocation: the outer thunk allocates a cell and a thunk reading it *)
Nested == [name |-> "nested",
  codes |-> << << <<"force", 2, 1>>, <<"proj", 3, "odd", 2>>, <<"proj", 4, "hi", 2>>,
                  <<"cell", 5, S("x"), 3>>, <<"thunk", 6, S("t"), 2, 5>>, <<"cell", 7, S("y"), 4>>,
                  <<"pair", 8, 6, 7>>, <<"ret", 8>> >>,
               << <<"force", 2, 1>>, <<"proj", 2, "inc", 2>>, <<"ret", 2>> >>,
               << <<"force", 2, 1>>, <<"proj", 3, "fst", 2>>, <<"force", 3, 3>>, <<"ret", 3>> >>,
               << <<"force", 2, 1>>, <<"proj", 3, "snd", 2>>, <<"force", 3, 3>>, <<"ret", 3>> >> >>,
  init |-> << C("n", I(1)), T("o", 1, A(":n")), T("rt", 3, A(":o")), T("ry", 4, A(":o")) >>,
  ops |-> Sets(":n", <<I(1), I(3), I(5), I(2)>>) \o << F(":o"), F(":rt"), F(":ry"), F(":t"), F(":x"), <<"set", A(":x"), I(7)>> >> ]

(* re-allocation of named thunks by the editor *)
Realloc == [name |-> "realloc",
  codes |-> << << <<"force", 2, 1>>, <<"proj", 2, "odd", 2>>, <<"ret", 2>> >>,
               << <<"force", 2, 1>>, <<"proj", 2, "inc", 2>>, <<"ret", 2>> >> >>,
  init |-> << C("a", I(1)), C("b", I(2)), T("t", 1, A(":a")), T("u", 2, A(":t")) >>,
  ops |-> << T("t", 1, A(":a")), T("t", 1, A(":b")), <<"set", A(":a"), I(3)>>, <<"set", A(":b"), I(5)>>,
             F(":t"), F(":u"), T("u", 2, A(":t")), T("u", 2, A(":b")) >> ]

(* several projections of one cell *)
Projs == [name |-> "projs",
  codes |-> << << <<"fmap", 2, 1, "fst">>, <<"proj", 2, "odd", 2>>, <<"jz", 2, 2>>, <<"fmap", 3, 1, "snd">>, <<"ret", 3>>, <<"ret", 2>> >>,
               << <<"fmap", 2, 1, "snd">>, <<"fmap", 3, 1, "fst">>, <<"pair", 2, 2, 3>>, <<"ret", 2>> >>,
               << <<"fabs", 2, 1, "fst">>, <<"ret", 2>> >>,
               << <<"fmap", 2, 1, "fst">>, <<"force", 3, 1>>, <<"ret", 3>> >>,
               << <<"force", 2, 1>>, <<"fmap", 3, 1, "snd">>, <<"fmap", 4, 1, "snd">>, <<"ret", 3>> >> >>,
  init |-> << C("a", P(I(1), I(2))), T("t", 1, A(":a")), T("u", 2, A(":a")), T("v", 3, A(":a")), T("w", 4, A(":a")), T("z", 5, A(":a")) >>,
  ops |-> Sets(":a", << P(I(1), I(2)), P(I(3), I(2)), P(I(1), I(4)), P(I(2), I(4)) >>)
          \o << F(":t"), F(":u"), F(":v"), F(":w"), F(":z") >> ]

(* a name that is sometimes a cell and sometimes a thunk *)
Kinds == [name |-> "kinds",
  codes |-> << << <<"force", 2, 1>>, <<"proj", 2, "inc", 2>>, <<"ret", 2>> >>,
               << <<"glob", 2, ":x">>, <<"fmap", 3, 2, "odd">>, <<"ret", 3>> >>,
               << <<"glob", 2, ":x">>, <<"force", 3, 2>>, <<"ret", 3>> >> >>,
  init |-> << C("a", I(1)), C("x", I(2)), T("m", 2, I(0)), T("f", 3, I(0)) >>,
  ops |-> << C("x", I(2)), C("x", I(4)), T("x", 1, A(":a")), <<"set", A(":a"), I(1)>>, <<"set", A(":a"), I(3)>>,
             F(":x"), F(":m"), F(":f") >> ]

(* one code allocating the same inner names in two namespaces *)
Spaces == [name |-> "spaces",
  codes |-> << << <<"force", 2, 1>>, <<"cell", 3, S("x"), 2>>, <<"ns", S("in"), 1>>, <<"cell", 4, S("x"), 2>>,
                  <<"pair", 5, 3, 4>>, <<"ret", 5>> >>,
               << <<"ns", S("l"), 3>>, <<"glob", 2, ":a">>, <<"thunk", 3, S("t"), 1, 2>>, <<"force", 4, 3>>,
                  <<"ns", S("r"), 3>>, <<"glob", 2, ":b">>, <<"thunk", 5, S("t"), 1, 2>>, <<"force", 6, 5>>,
                  <<"proj", 4, "snd", 4>>, <<"force", 4, 4>>, <<"proj", 6, "fst", 6>>, <<"force", 6, 6>>,
                  <<"cell", 7, S("z"), 4>>, <<"pair", 8, 4, 6>>, <<"ret", 8>> >>,
               \* demands a thunk of another namespace before it allocates
               << <<"force", 2, 1>>, <<"cell", 3, S("x"), 2>>, <<"force", 3, 3>>, <<"ret", 3>> >>,
               << <<"force", 2, 1>>, <<"proj", 2, "inc", 2>>, <<"ret", 2>> >> >>,
  init |-> << C("a", I(1)), C("b", I(2)), T("top", 2, I(0)),
              <<"thunk", <<"l">>, "u", 4, A(":a")>>, T("w", 3, A("/l:u")) >>,
  ops |-> Sets(":a", <<I(1), I(3)>>) \o Sets(":b", <<I(2), I(4)>>) \o
          << F(":top"), F("/l:t"), F("/r:t"), F(":w"), <<"cell", <<"l">>, "q", I(5)>> >> ]

(* structural identity next to names *)
Structs == [name |-> "structs",
  codes |-> << << <<"proj", 2, "inc", 1>>, <<"ret", 2>> >>,
               << <<"force", 2, 1>>, <<"sthunk", 3, 1, 2>>, <<"force", 4, 3>>, <<"ret", 4>> >>,
               << <<"force", 2, 1>>, <<"struct", 3>>, <<"struct", 1>>, <<"cell", 3, S("x"), 2>>, <<"thunk", 4, S("y"), 1, 2>>,
                  <<"cell", 8, S("z"), 2>>, <<"force", 5, 3>>, <<"force", 6, 4>>, <<"pair", 7, 5, 6>>, <<"ret", 7>> >>,
               << <<"force", 2, 1>>, <<"ret", 2>> >> >>,
  init |-> << C("a", I(1)), T("t", 2, A(":a")), T("u", 3, A(":a")), <<"sthunk", <<>>, 4, A(":a")>> >>,
  ops |-> Sets(":a", <<I(1), I(3)>>) \o << F(":t"), F(":u"), F(":#4(@:a)"), <<"sthunk", <<>>, 4, A(":a")>>, <<"sthunk", <<>>, 1, I(1)>> >> ]

(* unnamed articulations *)
Unnamed == [name |-> "unnamed",
  codes |-> << << <<"force", 2, 1>>, <<"put", 3, 2>>, <<"nthunk", 4, "k", 2, 1>>, <<"tmap", 5, 1, "odd">>,
                  <<"pair", 6, 3, 4>>, <<"pair", 6, 6, 5>>, <<"ret", 6>> >>,
               << <<"force", 2, 1>>, <<"proj", 2, "hi", 2>>, <<"ret", 2>> >>,
               << <<"force", 2, 1>>, <<"proj", 3, "fst", 2>>, <<"proj", 4, "fst", 3>>, <<"proj", 5, "snd", 3>>, <<"proj", 6, "snd", 2>>,
                  <<"force", 4, 4>>, <<"fmap", 5, 5, "inc">>, <<"force", 6, 6>>, <<"add", 4, 4, 5>>, <<"add", 4, 4, 6>>,
                  <<"eager", 7, "e", 2, 1>>, <<"ret", 4>> >> >>,
  init |-> << C("a", I(1)), T("t", 1, A(":a")) >>,
  ops |-> Sets(":a", <<I(1), I(3), I(4)>>) \o << T("u", 1, A(":a")), F(":t") >> ]

(* named thunks without dependences *)
Consts == [name |-> "consts",
  codes |-> << << <<"ret", 1>> >>,
               << <<"force", 2, 1>>, <<"proj", 2, "inc", 2>>, <<"ret", 2>> >>,
               << <<"force", 2, 1>>, <<"const", 3, I(1)>>, <<"thunk", 4, S("in"), 1, 2>>, <<"jz", 2, 2>>,
                  <<"force", 3, 4>>, <<"ret", 3>>, <<"ret", 3>> >> >>,
  init |-> << C("a", I(0)), T("t", 1, I(1)), T("u", 2, A(":t")), T("v", 3, A(":u")) >>,
  ops |-> << T("t", 1, I(1)), T("t", 1, I(3)), T("t", 1, I(7)), F(":t"), F(":u"), F(":v"), T("v", 3, A(":u")), T("v", 3, A(":a")), F(":in") >> ]

(* which inner nodes exist, and what observes them, changes with the input *)
Deepen == [name |-> "deepen",
  codes |-> << << <<"force", 2, 1>>, <<"proj", 2, "inc", 2>>, <<"ret", 2>> >>,
               << <<"force", 2, 1>>, <<"cell", 3, S("k"), 2>>, <<"thunk", 4, S("i"), 1, 3>>, <<"ret", 4>> >>,
               << <<"force", 2, 1>>, <<"jodd", 2, 1>>, <<"ret", 2>>, <<"thunk", 3, S("m"), 2, 1>>,
                  <<"force", 4, 3>>, <<"force", 5, 4>>, <<"ret", 5>> >>,
               << <<"force", 2, 1>>, <<"glob", 3, ":a">>, <<"fmap", 4, 3, "hi">>, <<"add", 2, 2, 4>>, <<"ret", 2>> >> >>,
  init |-> << C("a", I(1)), T("o", 3, A(":a")), T("p", 4, A(":o")) >>,
  ops |-> Sets(":a", <<I(1), I(2), I(3), I(5)>>) \o << F(":o"), F(":p"), F(":m"), F(":i"), F(":k"), T("o", 3, A(":a")) >> ]

(* a list in cells, a recursive filter over it, and a fold of the result *)
Lists == [name |-> "lists",
  codes |-> << \* filter odd: memoized on the cell
               << <<"force", 2, 1>>, <<"jpair", 2, 1>>, <<"ret", 2>>, <<"proj", 3, "snd", 2>>,
                  <<"thunk", 4, <<"memo", 1, 3>>, 1, 3>>, <<"proj", 5, "fst", 2>>, <<"jodd", 5, 2>>,
                  <<"force", 6, 4>>, <<"ret", 6>>,
                  <<"force", 6, 4>>, <<"cell", 7, S("c"), 6>>, <<"pair", 8, 5, 7>>, <<"ret", 8>> >>,
               \* sum
               << <<"force", 2, 1>>, <<"jpair", 2, 1>>, <<"ret", 2>>, <<"proj", 3, "snd", 2>>, <<"thunk", 4, <<"memo", 2, 3>>, 2, 3>>,
                  <<"force", 5, 4>>, <<"proj", 6, "fst", 2>>, <<"add", 5, 5, 6>>, <<"ret", 5>> >>,
               << <<"thunk", 2, S("sum"), 2, 1>>, <<"force", 3, 2>>, <<"ret", 3>> >> >>,
  init |-> << C("l2", I(0)), C("l1", P(I(3), A(":l2"))), C("l0", P(I(2), A(":l1"))),
              T("f", 1, A(":l0")), T("s", 3, A(":l0")) >>,
  ops |-> << <<"set", A(":l0"), P(I(2), A(":l2"))>>, <<"set", A(":l0"), P(I(3), A(":l1"))>>, <<"set", A(":l0"), P(I(2), A(":l1"))>>,
             <<"set", A(":l1"), I(0)>>, <<"set", A(":l1"), P(I(2), A(":l2"))>>, F(":f"), F(":s") >> ]

(* refused sets: on thunks, on unnamed articulations, from within a body *)
Refusals == [name |-> "refusals",
  codes |-> << << <<"glob", 2, ":a">>, <<"force", 3, 2>>, <<"tryset", 4, 2, 1>>, <<"force", 5, 2>>, <<"add", 5, 5, 4>>, <<"ret", 5>> >>,
               << <<"force", 2, 1>>, <<"cell", 3, S("x"), 2>>, <<"tryset", 4, 3, 1>>, <<"force", 5, 3>>, <<"pair", 5, 5, 4>>, <<"ret", 5>> >> >>,
  init |-> << C("a", I(1)), T("t", 1, I(5)), T("u", 2, A(":a")) >>,
  ops |-> << <<"set", A(":a"), I(2)>>, <<"set", A(":t"), I(3)>>, <<"set", <<"r", I(1)>>, I(3)>>, <<"set", A(":u"), I(2)>>,
             F(":a"), F(":t"), F(":u"), F(":x"), <<"set", A(":x"), I(6)>> >> ]

(* the same thunk demanded in several ways, by the editor and by bodies *)
Demands == [name |-> "demands",
  codes |-> << << <<"force", 2, 1>>, <<"fmap", 3, 1, "odd">>, <<"pair", 2, 2, 3>>, <<"ret", 2>> >>,
               << <<"fmap", 2, 1, "fst">>, <<"fabs", 3, 1, "snd">>, <<"add", 2, 2, 3>>, <<"ret", 2>> >>,
               << <<"tmap", 2, 1, "fst">>, <<"force", 3, 2>>, <<"fmap", 4, 2, "hi">>, <<"add", 3, 3, 4>>, <<"ret", 3>> >> >>,
  init |-> << C("a", I(1)), T("t", 1, A(":a")), T("u", 2, A(":t")), T("v", 3, A(":t")) >>,
  ops |-> Sets(":a", <<I(1), I(2), I(4)>>) \o
          << F(":t"), <<"fmap", A(":t"), "snd">>, <<"fabs", A(":u"), "odd">>, <<"fcyc", A(":v"), I(7)>>, F(":u"),
             <<"fmap", A(":a"), "odd">>, <<"fabs", A(":a"), "hi">> >> ]

(* a cyclic program: a walk over a graph of nodes in cells, always entered at e *)
Cycle == [name |-> "cycle", cyclic |-> TRUE,
  codes |-> << << <<"force", 2, 1>>, <<"jodd", 2, 3>>, <<"glob", 3, ":e">>, <<"fcyc", 4, 3, I(0)>>, <<"ret", 4>>,
                  <<"glob", 3, ":e">>, <<"fcyc", 4, 3, I(2)>>, <<"add", 2, 2, 4>>, <<"ret", 2>> >>,
               << <<"force", 2, 1>>, <<"jodd", 2, 3>>, <<"glob", 3, ":x">>, <<"force", 4, 3>>, <<"ret", 4>>,
                  <<"glob", 3, ":x">>, <<"force", 4, 3>>, <<"glob", 3, ":y">>, <<"force", 5, 3>>, <<"add", 4, 4, 5>>, <<"ret", 4>> >> >>,
  init |-> << C("a", I(1)), C("b", I(1)), C("c", I(1)), T("x", 1, A(":a")), T("y", 1, A(":b")), T("e", 2, A(":c")) >>,
  ops |-> Sets(":a", <<I(1), I(2), I(3)>>) \o Sets(":b", <<I(1), I(4)>>) \o Sets(":c", <<I(1), I(2)>>)
          \o << F(":e"), <<"fcyc", A(":e"), I(6)>> >> ]

(* what one thunk allocates and another demands is allocated by the editor, too *)
Undemanded == [name |-> "undemanded",
  codes |-> << << <<"force", 2, 1>>, <<"proj", 2, "inc", 2>>, <<"ret", 2>> >>,
               << <<"force", 2, 1>>, <<"proj", 3, "odd", 2>>, <<"thunk", 4, S("x"), 1, 3>>, <<"cell", 5, S("y"), 3>>, <<"ret", 2>> >>,
               << <<"force", 2, 1>>, <<"thunk", 4, S("x"), 1, 2>>, <<"ret", 4>> >> >>,
  init |-> << C("a", I(1)), T("t", 2, A(":a")), T("u", 3, A(":a")) >>,
  ops |-> Sets(":a", <<I(1), I(3)>>) \o << T("x", 1, I(1)), T("x", 1, I(5)), C("y", I(6)), T("y", 1, I(4)), C("x", I(2)), F(":t"), F(":u"), F(":x"), F(":y") >> ]

(* plain demands that an edit makes cyclic, of thunks that have results: of itself, and through another *)
Turning == [name |-> "turning",
  codes |-> << << <<"force", 2, 1>>, <<"jodd", 2, 2>>, <<"proj", 2, "inc", 2>>, <<"ret", 2>>,
                  <<"glob", 3, ":e">>, <<"force", 4, 3>>, <<"add", 2, 2, 4>>, <<"ret", 2>> >>,
               << <<"glob", 2, ":x">>, <<"glob", 3, ":b">>, <<"force", 4, 3>>, <<"jz", 4, 3>>, <<"force", 5, 2>>, <<"add", 4, 4, 5>>, <<"ret", 4>>,
                  <<"glob", 5, ":c">>, <<"fmap", 5, 5, "odd">>, <<"jz", 5, 3>>, <<"glob", 5, ":e">>, <<"fmap", 5, 5, "odd">>, <<"ret", 5>>, <<"ret", 4>> >> >>,
  init |-> << C("a", I(0)), C("b", I(1)), C("c", I(2)), T("x", 1, A(":a")), T("e", 2, I(0)) >>,
  ops |-> Sets(":a", <<I(0), I(1), I(2), I(3)>>) \o Sets(":b", <<I(0), I(1)>>) \o Sets(":c", <<I(1), I(2)>>)
          \o << F(":e"), F(":x"), <<"fcyc", A(":x"), I(5)>> >> ]

AllFamilies == << Chain, Branch, Nested, Realloc, Projs, Kinds, Spaces, Structs, Unnamed,
                  Consts, Deepen, Lists, Refusals, Demands, Cycle, Undemanded, Turning >>
=============================================================================
