------------------------------ MODULE AtomicCell ------------------------------
(* The abstract object the crate provides: a cell of N bytes and the atomic     *)
(* operations on it.  This module is the single source of truth for the value   *)
(* semantics; every other module (behaviour generators, machine-level           *)
(* conformance, trace validation) is checked against the operators below.       *)
EXTENDS Naturals, Sequences, FiniteSets

Relaxed == 0   Release == 1   Acquire == 2   AcqRel == 3   SeqCst == 4
Orderings == 0..4

(* which ordering arguments exist, and what the crate documents otherwise       *)
LoadOK(o)  == o \in {Relaxed, Acquire, SeqCst}
StoreOK(o) == o \in {Relaxed, Release, SeqCst}
FailOK(f)  == f \in {Relaxed, Acquire, SeqCst}

LoadMsg(o) == IF o = Release THEN "there is no such thing as a release load"
              ELSE "there is no such thing as an acquire-release load"
StoreMsg(o) == IF o = Acquire THEN "there is no such thing as an acquire store"
               ELSE "there is no such thing as an acquire-release store"
FailMsg(f) == IF f = Release THEN "there is no such thing as a release failure ordering"
              ELSE "there is no such thing as an acquire-release failure ordering"

(* [valid, msg] for an operation with orderings o (success) and f (failure)     *)
OrderingVerdict(op, o, f) ==
  CASE op = "ld" -> IF LoadOK(o) THEN <<TRUE, "">> ELSE <<FALSE, LoadMsg(o)>>
    [] op = "st" -> IF StoreOK(o) THEN <<TRUE, "">> ELSE <<FALSE, StoreMsg(o)>>
    [] op = "sw" -> <<TRUE, "">>
    [] op \in {"ce", "cw"} -> IF FailOK(f) THEN <<TRUE, "">> ELSE <<FALSE, FailMsg(f)>>
       (* fetch_update starts with a load at the fetch (= failure) ordering      *)
    [] op = "fu" -> IF LoadOK(f) THEN <<TRUE, "">> ELSE <<FALSE, LoadMsg(f)>>

(* Outcomes: [mem: the cell afterwards, ok: reported success, res: the value    *)
(* handed back (<<>> when the operation returns none)].                         *)
Out(mem, ok, res) == [mem |-> mem, ok |-> ok, res |-> res]

LoadOut(m)         == Out(m, TRUE, m)
StoreOut(m, v)     == Out(v, TRUE, <<>>)
SwapOut(m, v)      == Out(v, TRUE, m)
CasOut(m, old, new) == IF m = old THEN Out(new, TRUE, m) ELSE Out(m, FALSE, m)
(* the weak form may additionally fail although the bytes match                 *)
WeakOuts(m, old, new) == {CasOut(m, old, new), Out(m, FALSE, m)}

(* the set of outcomes the specification allows                                 *)
Outs(op, m, a, b) ==
  CASE op \in {"ld", "gmr", "apr", "into", "fpld"} -> {LoadOut(m)}
    [] op \in {"st", "new", "cnew", "from", "fromv", "gmw", "apw", "fpst"} -> {StoreOut(m, a)}
    [] op = "sw" -> {SwapOut(m, a)}
    [] op = "ce" -> {CasOut(m, a, b)}
    [] op = "cw" -> WeakOuts(m, a, b)
=============================================================================
