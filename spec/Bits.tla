---- MODULE Bits ----
(* Bit strings (C21): a bit string is a sequence of bits, the lowest first; a 64-bit number is a
   sequence of 64 bits in two's complement.  Prepending adds a highest bit, shifting drops high
   bits, flipping and testing concern one bit. *)
EXTENDS Judging
CONSTANT MaxOps

Bit == {0, 1}
Zeros(n) == [i \in 1..n |-> 0]
Prepend(b, bs) == Append(bs, b)
ShiftLeft(bs, k) == [i \in 1..Len(bs) |-> IF i > k THEN bs[i - k] ELSE 0]
IsSet(i, x) == x[i + 1] = 1
Flip(i, x) == [x EXCEPT ![i + 1] = 1 - @]
(* b^n, as long as it fits *)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
(* 64 bits of a small integer, two's complement *)
RECURSIVE Low(_, _)
Low(k, n) == IF k = 0 THEN <<>> ELSE <<n % 2>> \o Low(k - 1, n \div 2)
Bits64(n) == Low(64, n)     \* % and \div round down, as two's complement needs
PowBits(b, n) == IF b = 2 THEN [i \in 1..64 |-> IF i = n + 1 THEN 1 ELSE 0] ELSE Bits64(Pow(b, n))
Value(bs) == bs \o Zeros(64 - Len(bs))

Apply(bs, op) ==
    CASE op[1] = "prepend" -> Prepend(op[2], bs)
      [] op[1] = "shift" -> ShiftLeft(bs, op[2])
      [] op[1] = "reset" -> <<>>

RECURSIVE RunOps(_, _, _)
RunOps(bs, ops, i) == IF i > Len(ops) THEN <<>> ELSE LET b == Apply(bs, ops[i]) IN <<b>> \o RunOps(b, ops, i + 1)

Init == s = [bs |-> <<>>, hist |-> <<>>]
Next == /\ Len(s.hist) < MaxOps
        /\ \E op \in {<<"prepend", 0>>, <<"prepend", 1>>} \cup {<<"shift", k>> : k \in 0..3} :
             s' = [bs |-> Apply(s.bs, op), hist |-> Append(s.hist, op)]
        /\ Export => PrintT(<<"H", ToJson(s'.hist)>>)
(* shifting is repeated shifting by one; flipping twice is nothing; the number is that of the bits *)
RECURSIVE Num(_)
Num(bs) == IF bs = <<>> THEN 0 ELSE Head(bs) + 2 * Num(Tail(bs))
Holds == /\ ShiftLeft(ShiftLeft(s.bs, 1), 1) = ShiftLeft(s.bs, 2)
         /\ \A i \in 0..(Len(s.bs) - 1) : Flip(i, Flip(i, s.bs)) = s.bs /\ IsSet(i, Flip(i, s.bs)) = ~IsSet(i, s.bs)
         /\ Bits64(Num(s.bs)) = Value(s.bs)
         /\ Num(ShiftLeft(s.bs, 1)) = (2 * Num(s.bs)) % Pow(2, Len(s.bs))

(* r.ops on a bit string, with r.vals (value and length after each); r.probes: tests and flips of bits of
   64-bit numbers; r.pows: [base, exponent, bits] *)
Verdict(r) ==
    IF r.died # "" THEN <<"the program ended: " \o r.died>>
    ELSE LET e == RunOps(<<>>, r.ops, 1)
         IN Complain(\E i \in DOMAIN e : r.vals[i] # <<Len(e[i]), Value(e[i])>>, <<"bit string", r.vals, e>>)
            \o Concat([i \in DOMAIN r.probes |->
                 LET p == r.probes[i]  a == r.answers[i] IN
                 Complain(a[1] # IsSet(p[1], p[2]), <<"is_set", p, a>>) \o Complain(a[2] # Flip(p[1], p[2]), <<"flip", p, a>>)])
            \o Concat([i \in DOMAIN r.pows |-> Complain(r.powers[i] # PowBits(r.pows[i][1], r.pows[i][2]), <<"pow", r.pows[i], r.powers[i]>>)])
            \o Complain(r.maxlen # 30, "MAX_LEN")
JNext == JudgeWith(Verdict)
====
