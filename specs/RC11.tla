--------------------------------- MODULE RC11 ---------------------------------
(* What the orderings promise: the C++20/Rust axioms for atomics (no fences),   *)
(* as a predicate over a finished history.  An event is a record                *)
(*   [t thread (0 = initial), i position, l cell, o ordering of the event,      *)
(*    r value read or <<>>, w value written or <<>>]                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

RC_Acq(o) == o \in {2, 3, 4}
RC_Rel(o) == o \in {1, 3, 4}
RC_R(e) == e.r # <<>>
RC_W(e) == e.w # <<>>

RECURSIVE TCk(_, _, _)
(* transitive closure (Warshall) of relation M: [1..n -> SUBSET 1..n]           *)
TCk(M, k, n) == IF k > n THEN M
                ELSE TCk(TLCEval([x \in 1..n |-> IF k \in M[x] THEN M[x] \cup M[k] ELSE M[x]]), k + 1, n)
TC(M) == TCk(M, 1, Len(M))
Seqn(M) == M          \* relations are tuples of successor sets
Join(A, B) == TLCEval([x \in 1..Len(A) |-> UNION {B[y] : y \in A[x]}])
Un(A, B) == TLCEval([x \in 1..Len(A) |-> A[x] \cup B[x]])
Refl(A) == TLCEval([x \in 1..Len(A) |-> A[x] \cup {x}])
Acyclic(A) == LET T == TC(A) IN \A x \in 1..Len(A) : x \notin T[x]
Rel(n, P(_, _)) == TLCEval([x \in 1..n |-> {y \in 1..n : P(x, y)}])

(* candidate read sources per reading event                                     *)
RfCand(E, x) == {w \in 1..Len(E) : w # x /\ RC_W(E[w]) /\ E[w].l = E[x].l /\ E[w].w = E[x].r}
RECURSIVE RfFuns(_, _)
RfFuns(E, x) == IF x = 0 THEN {<<>>}
   ELSE {Append(f, w) : f \in RfFuns(E, x - 1), w \in IF RC_R(E[x]) THEN RfCand(E, x) ELSE {0}}

RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o p : p \in Perms(S \ {x})} : x \in S}
(* modification orders: one permutation of the non-initial writes per cell      *)
RECURSIVE MoFuns(_, _)
MoFuns(E, L) == IF L = {} THEN {<<>>}
   ELSE LET l == CHOOSE l \in L : TRUE
            init == CHOOSE x \in 1..Len(E) : E[x].t = 0 /\ E[x].l = l
            ws == {x \in 1..Len(E) : RC_W(E[x]) /\ E[x].l = l /\ E[x].t # 0}
        IN {Append(f, <<init>> \o p) : f \in MoFuns(E, L \ {l}), p \in Perms(ws)}
PosIn(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE 0

ConsistentWith(lvl, E, rf, mos, final) ==
  LET n == Len(E)
      Mo(x, y) == \E k \in 1..Len(mos) : LET a == PosIn(mos[k], x) b == PosIn(mos[k], y) IN a # 0 /\ b # 0 /\ a < b
      mo == Rel(n, Mo)
      Sb(x, y) == (E[x].t = E[y].t /\ E[x].t # 0 /\ E[x].i < E[y].i) \/ (E[x].t = 0 /\ E[y].t # 0)
      sb == Rel(n, Sb)
      rfr == TLCEval([x \in 1..n |-> {y \in 1..n : rf[y] = x}])
      rb == TLCEval([x \in 1..n |-> IF rf[x] = 0 THEN {} ELSE mo[rf[x]] \ {x}])
      Rmw(x) == RC_R(E[x]) /\ RC_W(E[x])
      (* release sequence of w: w and the updates that continue it               *)
      rfrmw == TLCEval([x \in 1..n |-> {y \in rfr[x] : Rmw(y)}])
      rs == Refl(TC(rfrmw))
      sw == TLCEval([x \in 1..n |-> IF RC_W(E[x]) /\ RC_Rel(E[x].o)
                            THEN {y \in UNION {rfr[z] : z \in rs[x]} : RC_Acq(E[y].o) /\ E[y].t # E[x].t} ELSE {}])
      hb == TC(Un(sb, sw))
      eco == TC(Un(Un(rfr, mo), rb))
      coh == Join(hb, Refl(eco))
      SameLoc(x) == {y \in 1..n : E[y].l = E[x].l}
      sbneq == TLCEval([x \in 1..n |-> sb[x] \ SameLoc(x)])
      hbloc == TLCEval([x \in 1..n |-> hb[x] \cap SameLoc(x)])
      scb == Un(Un(Un(Un(sb, Join(Join(sbneq, hb), sbneq)), hbloc), mo), rb)
      sc == {x \in 1..n : E[x].o = 4 /\ E[x].t # 0}
      psc == TLCEval([x \in 1..n |-> IF x \in sc THEN scb[x] \cap sc ELSE {}])
  IN /\ \A k \in 1..Len(mos) : E[mos[k][Len(mos[k])]].w = final[E[mos[k][1]].l]
     (* an update reads its immediate predecessor in modification order          *)
     /\ \A x \in 1..n : Rmw(x) => \E k \in 1..Len(mos) : LET p == PosIn(mos[k], x) IN p # 0 /\ mos[k][p - 1] = rf[x]
     /\ \A x \in 1..n : x \notin hb[x] /\ x \notin coh[x]
     /\ (lvl < 2 \/ Acyclic(psc))

Consistent(lvl, E, final) ==
  LET L == {E[x].l : x \in 1..Len(E)}  M == MoFuns(E, L) IN
  \E rf \in RfFuns(E, Len(E)) : \E mos \in M : ConsistentWith(lvl, E, rf, mos, final)
=============================================================================
