-------------------------------- MODULE Bytes --------------------------------
(* Byte-tuple arithmetic.  A value is a sequence of bytes, least significant    *)
(* first; 256 stands for a byte that was never initialised.                     *)
EXTENDS Naturals, Integers, Sequences, Bitwise, TLC

U == 256
Undef(v) == \E i \in 1..Len(v) : v[i] = U
Rep(x, n) == TLCEval([i \in 1..n |-> x])
Sub(v, off, n) == TLCEval([i \in 1..n |-> v[off + i]])
Zext(v, n) == TLCEval([i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0])
Sext(v, n) == TLCEval([i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE
                 IF v[Len(v)] = U THEN U ELSE IF v[Len(v)] >= 128 THEN 255 ELSE 0])
Rev(v) == TLCEval([i \in 1..Len(v) |-> v[Len(v) + 1 - i]])
Frz(v, g) == TLCEval([i \in 1..Len(v) |-> IF v[i] = U THEN g ELSE v[i]])

AndB(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = U \/ b = U THEN U ELSE a & b
OrB(a, b)  == IF a = 255 \/ b = 255 THEN 255 ELSE IF a = U \/ b = U THEN U ELSE a | b
XorB(a, b) == IF a = U \/ b = U THEN U ELSE a ^^ b
NotB(a)    == IF a = U THEN U ELSE 255 - a
Map2(Op(_, _), x, y) == TLCEval([i \in 1..Len(x) |-> Op(x[i], y[i])])

RECURSIVE Carry(_, _, _)
(* carry into byte i of x + y; 256 when it depends on an uninitialised byte     *)
Carry(x, y, i) ==
  IF i = 1 THEN 0
  ELSE LET c == Carry(x, y, i - 1) IN
       IF c = U \/ x[i-1] = U \/ y[i-1] = U THEN U ELSE (x[i-1] + y[i-1] + c) \div 256
RECURSIVE AddS(_, _, _, _)
AddS(x, y, i, c) ==
  IF i > Len(x) THEN <<>>
  ELSE IF c = U \/ x[i] = U \/ y[i] = U THEN Rep(U, Len(x) + 1 - i)
  ELSE <<(x[i] + y[i] + c) % 256>> \o AddS(x, y, i + 1, (x[i] + y[i] + c) \div 256)
Add(x, y) == AddS(x, y, 1, 0)
NotV(x) == TLCEval([i \in 1..Len(x) |-> NotB(x[i])])
Subt(x, y) == AddS(x, NotV(y), 1, 1)

EqV(x, y) == IF \E i \in 1..Len(x) : x[i] # U /\ y[i] # U /\ x[i] # y[i] THEN 0
             ELSE IF Undef(x) \/ Undef(y) THEN U ELSE 1
RECURSIVE UltR(_, _, _)
UltR(x, y, i) == IF i = 0 THEN 0 ELSE IF x[i] < y[i] THEN 1 ELSE IF x[i] > y[i] THEN 0 ELSE UltR(x, y, i - 1)
UltV(x, y) == IF Undef(x) \/ Undef(y) THEN U ELSE UltR(x, y, Len(x))
FlipSign(x) == [x EXCEPT ![Len(x)] = (@ + 128) % 256]
SltV(x, y) == IF Undef(x) \/ Undef(y) THEN U ELSE UltR(FlipSign(x), FlipSign(y), Len(x))

(* small numbers                                                                *)
RECURSIVE NumR(_, _)
NumR(v, i) == IF i = 0 THEN 0 ELSE NumR(SubSeq(v, 2, Len(v)), i - 1) * 256 + v[1]
Num2(v) == v[1] + (IF Len(v) > 1 THEN 256 * v[2] ELSE 0)
Small(v) == ~Undef(v) /\ \A i \in 3..Len(v) : v[i] = 0       \* fits in two bytes
FromNum(x, n) == TLCEval([i \in 1..n |-> IF i = 1 THEN x % 256 ELSE IF i = 2 THEN (x \div 256) % 256 ELSE IF i = 3 THEN (x \div 65536) % 256 ELSE 0])

RECURSIVE PopB(_), PopCount(_)
PopB(x) == IF x = 0 THEN 0 ELSE (x % 2) + PopB(x \div 2)
PopCount(v) == IF v = <<>> THEN 0 ELSE PopB(v[1]) + PopCount(Tail(v))

Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64 [] k = 7 -> 128 [] k = 8 -> 256
At(v, i, fill) == IF i < 1 \/ i > Len(v) THEN fill ELSE v[i]
ShlN(v, k) == LET q == k \div 8  r == k % 8 IN
  TLCEval([i \in 1..Len(v) |->
     LET lo == At(v, i - q, 0)  lo1 == At(v, i - q - 1, 0) IN
     IF r = 0 THEN lo ELSE IF lo = U \/ lo1 = U THEN U
     ELSE ((lo * Pow2(r)) % 256) + (lo1 \div Pow2(8 - r))])
ShrN(v, k, fill) == LET q == k \div 8  r == k % 8 IN
  TLCEval([i \in 1..Len(v) |->
     LET hi == At(v, i + q, fill)  hi1 == At(v, i + q + 1, fill) IN
     IF r = 0 THEN hi ELSE IF hi = U \/ hi1 = U THEN U
     ELSE (hi \div Pow2(r)) + ((hi1 * Pow2(8 - r)) % 256)])
Fill(v) == IF v[Len(v)] = U THEN U ELSE IF v[Len(v)] >= 128 THEN 255 ELSE 0
Shl(v, s)  == IF Undef(s) THEN Rep(U, Len(v)) ELSE IF ~Small(s) \/ Num2(s) >= 8 * Len(v) THEN Rep(0, Len(v)) ELSE ShlN(v, Num2(s))
Lshr(v, s) == IF Undef(s) THEN Rep(U, Len(v)) ELSE IF ~Small(s) \/ Num2(s) >= 8 * Len(v) THEN Rep(0, Len(v)) ELSE ShrN(v, Num2(s), 0)
Ashr(v, s) == IF Undef(s) THEN Rep(U, Len(v)) ELSE IF ~Small(s) \/ Num2(s) >= 8 * Len(v) THEN Rep(Fill(v), Len(v)) ELSE ShrN(v, Num2(s), Fill(v))
Rotr(v, k) == Map2(OrB, ShrN(v, k, 0), ShlN(v, 8 * Len(v) - k))

(* an IEEE double that passes through the x87 as a double becomes quiet         *)
Quiet64(v) == IF ~Undef(v) /\ v[8] % 128 = 127 /\ v[7] \div 16 = 15 /\ (v[7] % 16 # 0 \/ \E i \in 1..6 : v[i] # 0)
              THEN [v EXCEPT ![7] = v[7] | 8] ELSE v
Quiet32(v) == IF ~Undef(v) /\ v[4] % 128 = 127 /\ v[3] \div 128 = 1 /\ (v[3] % 128 # 0 \/ v[1] # 0 \/ v[2] # 0)
              THEN [v EXCEPT ![3] = v[3] | 64] ELSE v
=============================================================================
