------------------------------- MODULE CellGen -------------------------------
(* State machine of one cell of N bytes.  TLC enumerates the whole state graph  *)
(* over the value patterns below; every transition is emitted as JSON and       *)
(* replayed into the real code by harness/driver.c (one implementation test per *)
(* transition).  In -simulate mode whole histories are emitted instead.         *)
EXTENDS AtomicCell, Integers, TLC, Json, Randomization

CONSTANTS N,        \* number of bytes of the cell
          Mode      \* "edges": every transition;  "walks": random histories
VARIABLES mem, last, hist
vars == <<mem, last, hist>>

Rep(x)  == [i \in 1..N |-> x]
Asc     == [i \in 1..N |-> (16 * i + (i % 7)) % 256]        \* all bytes different
Desc    == [i \in 1..N |-> 255 - 13 * i]
Flip(v, i, d) == [v EXCEPT ![i] = (@ + d) % 256]
(* values whose sign/zero extension differs, one-byte differences everywhere    *)
Base    == {Rep(0), Rep(255), Rep(128), Rep(127), Asc, Desc}
Halves  == IF N = 1 THEN {} ELSE
             {[i \in 1..N |-> IF i <= N \div 2 THEN 0 ELSE 255],
              [i \in 1..N |-> IF i <= N \div 2 THEN 255 ELSE 0],
              [i \in 1..N |-> IF i = 1 THEN 1 ELSE 0],
              [i \in 1..N |-> IF i = N THEN 128 ELSE 0]}
Near(v) == {Flip(v, i, d) : i \in 1..N, d \in {1, 128}}
Values  == Base \cup Halves \cup Near(Asc)
News    == {Rep(0), Rep(255), Asc, Desc}
(* candidates for the expected value of a compare-exchange on current value m   *)
Expect(m) == {m} \cup Near(m) \cup Base \cup Halves

Views1 == {"gmr", "apr", "into", "fpld"}
Views2 == {"new", "cnew", "from", "fromv", "gmw", "apw", "fpst"}

Do(op, a, b, o, f) ==
  /\ \E out \in Outs(op, mem, a, b) :
       (* the driver runs on hardware without spurious failures unless the      *)
       (* comparison fails, so only the deterministic outcome is emitted here;  *)
       (* spurious failures are part of Machine/FetchUpdate.                    *)
       /\ (op = "cw") => out = CasOut(mem, a, b)
       /\ mem' = out.mem
       /\ last' = [op |-> op, o |-> o, f |-> f, pre |-> mem, a |-> a, b |-> b,
                   ok |-> out.ok, res |-> out.res, post |-> out.mem]
  /\ hist' = IF Mode = "walks" THEN Append(hist, last') ELSE <<>>

Z == Rep(0)
(* --- exhaustive mode: orderings are crossed by the driver using OrderTable --- *)
EdgeNext ==
  \/ Do("ld", Z, Z, 0, 0)
  \/ \E v \in Values : Do("st", v, Z, 0, 0) \/ Do("sw", v, Z, 0, 0)
  \/ \E old \in Expect(mem), new \in News : Do("ce", old, new, 0, 0) \/ Do("cw", old, new, 0, 0)
  \/ \E w \in Views1 : Do(w, Z, Z, 0, 0)
  \/ \E w \in Views2, v \in Base \cup Halves : Do(w, v, Z, 0, 0)

(* --- random histories: random bytes, random valid orderings ----------------- *)
RB == [i \in 1..N |-> RandomElement(0..255)]
Pick(m) == CASE RandomElement(1..4) = 1 -> m
             [] RandomElement(1..3) = 1 -> Flip(m, RandomElement(1..N), RandomElement({1, 2, 4, 8, 16, 32, 64, 128}))
             [] RandomElement(1..2) = 1 -> RandomElement(Base \cup Halves)
             [] OTHER -> RB
WalkNext ==
  \E op \in {RandomElement({"ld", "st", "sw", "ce", "cw", "ce", "cw"} \cup
                          (IF RandomElement(1..4) = 1 THEN Views1 \cup Views2 ELSE {}))} :
  \E o \in {CASE op = "ld" -> RandomElement({0, 2, 4})
               [] op = "st" -> RandomElement({0, 1, 4})
               [] OTHER -> RandomElement(0..4)} :
  \E a \in {IF op \in {"ce", "cw"} /\ RandomElement(1..2) = 1 THEN mem ELSE Pick(mem)} :
  \E b \in {Pick(mem)} : \E f \in {RandomElement({0, 2, 4})} :
    Do(op, a, b, o, f)

Init == /\ mem \in IF Mode = "walks" THEN {RB} ELSE Base
        /\ last = <<>> /\ hist = <<>>
Next == IF Mode = "walks" THEN WalkNext ELSE EdgeNext
Spec == Init /\ [][Next]_vars

TypeOK == mem \in [1..N -> 0..255]
(* properties of the specification itself, checked while it is enumerated       *)
StepOK ==
  last = <<>> \/
    /\ (last.op \in {"ld", "ce", "cw", "sw"}) => last.res = last.pre
    /\ (last.op \in {"ce", "cw"} /\ ~last.ok) => last.post = last.pre /\ last.pre # last.a
    /\ (last.op \in {"ce", "cw"} /\ last.ok) => last.post = last.b /\ last.pre = last.a
    /\ (last.op \in {"st", "sw"}) => last.post = last.a

(* emit transitions; the state graph itself only has the cell's bytes           *)
View == mem
Emit == Mode # "edges" \/ PrintT("EDGE " \o ToJson(last'))
WalkLen == 24
EmitWalk == Len(hist) < WalkLen \/ PrintT("WALK " \o ToJson(hist))
Stop == Len(hist) < WalkLen

StepProp == [][StepOK']_vars

(* the ordering table: every operation with every pair                          *)
ASSUME PrintT("ORDERS " \o ToJson({[op |-> op, o |-> o, f |-> f,
                 ok |-> OrderingVerdict(op, o, f)[1], msg |-> OrderingVerdict(op, o, f)[2]] :
                 op \in {"ld", "st", "sw", "ce", "cw", "fu"}, o \in Orderings, f \in Orderings}))
=============================================================================
