--------------------------------- MODULE Skel ---------------------------------
(* The memory events of one compiled operation: it runs alone on the machine    *)
(* and every access, barrier, read-write pair and controlling branch is         *)
(* recorded.  The events are judged under the processor's memory model by Hw.   *)
EXTENDS Machine

VARIABLES T, mem, cs, ev, X
vars == <<T, mem, cs, ev, X>>
W(p) == Progs[p].w
At0 == Cell0 + 16
Asc(n)  == TLCEval([i \in 1..n |-> 16 * i + 3])
Desc(n) == TLCEval([i \in 1..n |-> 251 - 13 * i])
Mid(n)  == TLCEval([i \in 1..n |-> 101 + i])
InitMem(p, m) == TLCEval([x \in Cell0 .. Cell0 + 47 |-> IF x >= At0 /\ x < At0 + W(p) THEN (IF Progs[p].be = 1 THEN Rev(m) ELSE m)[x - At0 + 1] ELSE (x * 7) % 256])
IsCas(p) == Progs[p].op \in {"ce", "cw"}

(* ---- dependencies: which earlier reads a register depends on ---- *)
RECURSIVE Uses(_, _)
Uses(e, t) ==
  LET k == e[1] IN
  CASE k \in {"c", "rep"} -> {}
    [] k \in {"r", "m"} -> {e[2]}
    [] k \in {"o", "o0"} -> {t.A[e[2]]}
    [] k \in {"cat", "add", "sub", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt"} -> Uses(e[2], t) \cup Uses(e[3], t)
    [] k = "ite" -> Uses(e[2], t) \cup Uses(e[3], t) \cup Uses(e[4], t)
    [] OTHER -> Uses(e[2], t)
Tn(D, r) == IF r \in DOMAIN D THEN D[r] ELSE {}
Tx(D, e, t) == UNION {Tn(D, r) : r \in Uses(e, t)}
Put(D, r, s) == IF s = {} /\ r \notin DOMAIN D THEN D ELSE (r :> s) @@ D
PmKey(a) == "P" \o ToString(a)
DepLocal(D, t) ==
  LET o == Op(t) IN
  CASE o.k = "let" -> [D EXCEPT !.m = Put(@, o.d, Tx(D.m, o.e, t))]
    [] o.k = "wr" -> LET r == IF o.r[1] = "o" THEN t.A[o.r[2]] ELSE o.r[2] IN
                     [D EXCEPT !.m = Put(@, r, Tx(D.m, o.e, t) \cup (IF o.n = Len(t.R[r]) THEN {} ELSE Tn(D.m, r)))]
    [] o.k = "br" -> [D EXCEPT !.c = @ \cup Tx(D.m, o.c, t)]
    [] o.k = "ld" -> [D EXCEPT !.m = Put(@, o.d, Tn(D.m, PmKey(AddrOf(o.a, t))))]
    [] o.k = "st" -> [D EXCEPT !.m = Put(@, PmKey(AddrOf(o.a, t)), Tx(D.m, o.e, t))]
    [] o.k = "asm" -> LET b == Blk(t, o.b)  In == {k \in 1..Len(b.ops) : b.ops[k].dir = "in"} IN
                     [D EXCEPT !.m = TLCEval([r \in {b.def[k] : k \in In} |-> UNION {Tx(D.m, b.ops[k].e, t) : k \in {j \in In : b.def[j] = r}}]) @@ @]
    [] o.k = "end" -> LET b == Blk(t, o.b)  Ou == {k \in 1..Len(b.ops) : b.ops[k].dir = "out"} IN
                     [D EXCEPT !.m = TLCEval([x \in {"O" \o ToString(o.b) \o "_" \o ToString(k) : k \in Ou} |->
                                        Tn(D.m, t.A[CHOOSE k \in Ou : x = "O" \o ToString(o.b) \o "_" \o ToString(k)])]) @@ @]
    [] OTHER -> D
RECURSIVE Run(_, _)
Run(t, D) == IF Halted(t) \/ Visible(t) THEN <<t, D>> ELSE Run(Local(t), DepLocal(D, t))

(* what the declared effects of the block would let the compiler do              *)
HasFence(p) == \E i \in 1..Len(Progs[p].code) : Progs[p].code[i].k = "cfn"
Contract(t) ==
  IF t.cb = 0 THEN ""
  ELSE IF Blk(t, t.cb).side = 0 THEN "order: the block that accesses the cell is declared pure, so the compiler may move, merge or drop it"
  ELSE IF Op(t).k = "irq" /\ Blk(t, t.cb).mem # "full" THEN "effect: the block that masks or unmasks interrupts does not keep memory accesses inside the critical section"
  ELSE IF Progs[t.p].ordered = 1 /\ Blk(t, t.cb).mem # "full" /\ ~HasFence(t.p)
       THEN "order: the block of an ordered operation does not keep other memory accesses from moving across it (memory effect " \o Blk(t, t.cb).mem \o ")"
  ELSE ""

Attr(o) == IF "o" \in DOMAIN o THEN o.o ELSE ""
Cases(p) == IF IsCas(p) THEN {<<Asc(W(p)), Asc(W(p)), "ok">>, <<Asc(W(p)), Mid(W(p)), "no">>, <<Asc(W(p)), Asc(W(p)), "sp">>}
            ELSE {<<Asc(W(p)), Mid(W(p)), "ok">>}
(* fetch_update (its function declines the value b, otherwise next = value xor a): *)
(* installs, declines the loaded value, declines the value of a failed attempt    *)
FuCases(p) == {<<Asc(W(p)), Desc(W(p)), "ok", Rep(255, W(p))>>, <<Asc(W(p)), Desc(W(p)), "no", Asc(W(p))>>, <<Asc(W(p)), Desc(W(p)), "fr", Mid(W(p))>>}
AllCases(p) == IF Progs[p].op = "fu" THEN FuCases(p) ELSE {Append(c, Desc(W(p))) : c \in Cases(p)}
Init == \E p \in 1..Len(Progs) : \E c \in AllCases(p) :
   /\ cs = [p |-> p, c |-> c[3], sp |-> IF c[3] = "sp" THEN 1 ELSE 0, n |-> 0, b0 |-> 0, hit |-> 0]
   /\ mem = InitMem(p, c[1]) /\ ev = <<>>
   /\ LET r == Run(Thread(p, At0, c[2], c[4], W(p), 90, <<>>), [m |-> <<>>, c |-> {}]) IN T = r[1] /\ X = r[2]

LastLL == IF \E i \in 1..Len(ev) : ev[i].k = "R" /\ ev[i].ll = 1 THEN Max({i \in 1..Len(ev) : ev[i].k = "R" /\ ev[i].ll = 1}) ELSE 0
Ev(k, o, x, ll, same, val) == [k |-> k, o |-> o, x |-> x, ll |-> ll, c |-> X.c, wb |-> same]
Go(t, D) == LET r == Run(t, D) IN T' = r[1] /\ X' = r[2]
(* in the case "fr" the environment changes the cell between the load and the     *)
(* compare-exchange of fetch_update                                             *)
Hit == cs.c = "fr" /\ cs.hit = 0 /\ cs.b0 # 0 /\ T.cb # cs.b0 /\ T.cb # 0
Interfere == /\ mem' = InitMem(cs.p, Mid(W(cs.p))) /\ cs' = [cs EXCEPT !.hit = 1] /\ UNCHANGED <<T, ev, X>>
Step1 ==
  /\ ~Halted(T)
  /\ LET o == Op(T)  n == Len(ev) IN
     CASE Contract(T) # "" -> /\ T' = Fail(T, Contract(T)) /\ UNCHANGED <<mem, cs, ev, X>>
       [] o.k = "fn" -> /\ ev' = Append(ev, Ev("F", o.f, 0, 0, 0, 0)) /\ Go(Next1(T), X) /\ UNCHANGED <<mem, cs>>
       [] o.k = "irq" -> /\ Go(Next1(Set(T, "IF", Eval(o.e, T))), X) /\ UNCHANGED <<mem, cs, ev>>
       [] o.k = "at" ->
          LET r == Group(o.body, 1, T, mem)
              rd == \E i \in 1..Len(o.body) : o.body[i].k = "ld"
              wr == r.mem # mem
              e1 == IF rd THEN <<Ev("R", Attr(o), 0, 0, 0, 0)>> ELSE <<>>
              e2 == IF wr THEN <<Ev("W", Attr(o), IF rd THEN n + 1 ELSE 0, 0, 0, 0)>> ELSE <<>>
              lets == {i \in 1..Len(o.body) : o.body[i].k \in {"let", "ld"}}
          IN /\ ev' = ev \o e1 \o e2 /\ mem' = r.mem
             /\ Go(IF r.T.err # "" THEN r.T ELSE Next1(r.T), [X EXCEPT !.m = TLCEval([d \in {o.body[i].d : i \in lets} |-> {n + 1}]) @@ @])
             /\ UNCHANGED cs
       [] OTHER ->
          LET a == AddrOf(o.a, T) IN
          IF ~InShared(mem, a, o.n) THEN /\ T' = Fail(T, "wild") /\ UNCHANGED <<mem, cs, ev, X>>
          ELSE IF o.k \in {"ld", "ll"} THEN
             /\ ev' = Append(ev, Ev("R", Attr(o), 0, IF o.k = "ll" THEN 1 ELSE 0, 0, 0))
             /\ Go([Next1(Set(T, o.d, Order(T, MemRead(mem, a, o.n)))) EXCEPT !.rsv = IF o.k = "ll" THEN <<a, o.q>> ELSE @], [X EXCEPT !.m = Put(@, o.d, {n + 1})])
             /\ UNCHANGED <<mem, cs>>
          ELSE IF o.k = "sc" /\ (cs.sp = 1 \/ ~Reserved(T, a, o.n)) THEN
             /\ Go([Next1(Set(T, o.d, <<0>>)) EXCEPT !.rsv = <<>>], [X EXCEPT !.m = Put(@, o.d, {LastLL})])
             /\ cs' = [cs EXCEPT !.sp = 2] /\ UNCHANGED <<mem, ev>>
          ELSE LET m2 == MemWrite(mem, a, Order(T, Eval(o.e, T))) IN
             /\ ev' = Append(ev, Ev("W", Attr(o), IF o.k = "sc" THEN LastLL ELSE 0, 0, IF m2 = mem THEN 1 ELSE 0, 0))
             /\ Go([Next1(IF o.k = "sc" THEN Set(T, o.d, <<1>>) ELSE T) EXCEPT !.rsv = <<>>], IF o.k = "sc" THEN [X EXCEPT !.m = Put(@, o.d, {LastLL})] ELSE X)
             /\ mem' = m2 /\ UNCHANGED cs
Step == /\ ~Halted(T)
        /\ IF Hit THEN Interfere
           ELSE IF cs.b0 = 0 /\ T.cb # 0 /\ Op(T).k # "fn" THEN cs' = [cs EXCEPT !.b0 = T.cb] /\ UNCHANGED <<T, mem, ev, X>>
           ELSE Step1
Next == Step /\ TRUE
Spec == Init /\ [][Next]_vars
SkelOut ==
  /\ (T.err # "") => PrintT("NOTE " \o ToJson([p |-> Progs[cs.p].name, w |-> T.err]))
  /\ (T.err = "" /\ T.ret # <<>> /\ (cs.c # "sp" \/ (cs.sp = 2 /\ T.ret[1] = 0)) /\ (cs.c # "fr" \/ cs.hit = 1)) =>
       PrintT("SKEL " \o ToJson([p |-> Progs[cs.p].name, c |-> cs.c, r |-> T.ret[1], ev |-> ev, ct |-> X.c]))
Bound == cs.n < 200
===============================================================================
