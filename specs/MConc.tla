-------------------------------- MODULE MConc --------------------------------
(* Several threads run compiled operations on shared cells over store buffers   *)
(* (x86-TSO; with Buffers = FALSE, an interleaving of the same steps).  Every   *)
(* complete history must be one of the abstract cells (AtomicCell), and its     *)
(* orderings must be honoured (RC11).                                           *)
EXTENDS Machine, RC11

CONSTANTS ScenFile, Buffers
Scens == JsonDeserialize(ScenFile)
(* scenario: [name, order (0: none, 1: without, 2: with the axiom of SeqCst), cells <<[at, w, m]>>, nb <<addresses>>,          *)
(*   threads <<  << [p, c (cell), a, b, o, f, k bound] >> >>]                    *)
VARIABLES sc, th, mem, buf
vars == <<sc, th, mem, buf>>
(* th[i]: [T current machine thread, j current call, h results, k visible steps *)
(* of this call, fw foreign writes to its cell during this call, wn own writes]  *)
S == Scens[sc]
NT == Len(S.threads)
CallAt(i, j) == S.threads[i][j]
G == 90
Canary(x) == ((x - Cell0) * 29 + 7) % 256
StartT(s, i, j) == LET c == Scens[s].threads[i][j] IN RunLocal(Thread(c.p, Scens[s].cells[c.c].at, c.a, c.b, Progs[c.p].w, G, <<>>))
ScBE(s) == Progs[Scens[s].threads[1][1].p].be = 1
InitMem(s) == LET C == Scens[s].cells IN
   TLCEval([x \in Cell0 .. Cell0 + Scens[s].size - 1 |->
     IF \E k \in 1..Len(C) : x >= C[k].at /\ x < C[k].at + C[k].w
     THEN LET k == CHOOSE k \in 1..Len(C) : x >= C[k].at /\ x < C[k].at + C[k].w
              i == x - C[k].at + 1 IN C[k].m[IF ScBE(s) THEN C[k].w + 1 - i ELSE i]
     ELSE Canary(x)])
Fresh(s, i, j) == [T |-> IF j <= Len(Scens[s].threads[i]) THEN StartT(s, i, j) ELSE <<>>, j |-> j, h |-> <<>>, k |-> 0, fw |-> 0, wn |-> 0, sp |-> 1]

Init == \E s \in 1..Len(Scens) :
  /\ sc = s /\ mem = InitMem(s)
  /\ th = TLCEval([i \in 1..Len(Scens[s].threads) |-> Fresh(s, i, 1)])
  /\ buf = TLCEval([i \in 1..Len(Scens[s].threads) |-> <<>>])

Done(i) == th[i].j > Len(S.threads[i])
Failed == \E i \in 1..NT : ~Done(i) /\ th[i].T.err # ""
OutVal(T, n) == PmRead(T, OUTBUF, n)
(* after a visible step: if the call returned, record its result and start the next *)
Advance(i, T0) ==
  LET T == IF T0.err # "" THEN T0 ELSE RunLocal([T0 EXCEPT !.n = 0])
      r == th[i] IN
  IF T.err = "" /\ T.ret # <<>>
  THEN LET c == CallAt(i, r.j) IN
       [T |-> IF r.j + 1 <= Len(S.threads[i]) THEN StartT(sc, i, r.j + 1) ELSE <<>>,
        j |-> r.j + 1, k |-> 0, fw |-> 0, wn |-> 0, sp |-> r.sp,
        h |-> Append(r.h, [ok |-> T.ret[1], res |-> OutVal(T, Progs[c.p].w)])]
  ELSE [r EXCEPT !.T = T, !.k = @ + 1]
(* the same after a step with n writes of its own: a call writes its cell once  *)
Wrote(i, n, T) == IF th[i].wn + n > 1 /\ T.err = "" THEN [th[i] EXCEPT !.T = Fail(T, "cell: a call changes the cell more than once")]
                  ELSE LET r == Advance(i, T) IN IF r.j = th[i].j THEN [r EXCEPT !.wn = th[i].wn + n] ELSE r
(* the aligned word that holds the cell of the current call                     *)
Hit(i, a, n) == LET c == S.cells[CallAt(i, th[i].j).c]
                    g == IF Progs[CallAt(i, th[i].j).p].gran > c.w THEN Progs[CallAt(i, th[i].j).p].gran ELSE c.w
                    lo == c.at - (c.at % g)
                IN a < lo + g /\ lo < a + n
(* a write of n bytes at a by thread i reaches memory                           *)
Clears(T, a, n) == IF T.rsv # <<>> /\ a < T.rsv[1] + T.rsv[2] /\ T.rsv[1] < a + n THEN [T EXCEPT !.rsv = <<>>] ELSE T
Foreign(tt, i, a, n) == TLCEval([x \in 1..NT |-> IF x # i /\ ~(th[x].j > Len(S.threads[x])) /\ Hit(x, a, n) THEN [tt[x] EXCEPT !.fw = @ + 1, !.T = Clears(@, a, n)] ELSE tt[x]])

Step(i) ==
  /\ ~Done(i) /\ ~Failed /\ ~Halted(th[i].T)
  /\ \A x \in 1..NT : x # i /\ ~Done(x) => ~Masked(th[x].T)
  /\ LET T == th[i].T  o == Op(T)  b == buf[i] IN
     CASE o.k = "fn" -> /\ b = <<>>
                        /\ th' = [th EXCEPT ![i] = Advance(i, Next1(T))] /\ UNCHANGED <<mem, buf>>
       [] o.k = "irq" -> /\ th' = [th EXCEPT ![i] = Advance(i, Next1(Set(T, "IF", Eval(o.e, T))))] /\ UNCHANGED <<mem, buf>>
       [] o.k = "at" -> /\ b = <<>>
                        /\ LET r == Group(o.body, 1, T, mem)
                               dif == {x \in DOMAIN mem : mem[x] # r.mem[x]}
                               t1 == [th EXCEPT ![i] = Wrote(i, IF dif = {} THEN 0 ELSE 1, IF r.T.err # "" THEN r.T ELSE Next1(r.T))]
                           IN /\ mem' = r.mem
                              /\ th' = (IF dif = {} THEN t1 ELSE Foreign(t1, i, Min(dif), Max(dif) - Min(dif) + 1))
                        /\ UNCHANGED buf
       [] OTHER ->
          LET a == AddrOf(o.a, T)
              wr == o.k \in {"st", "sc"}
              e == IF o.x = "ir" /\ ~Masked(T) THEN "race: ordinary access to the cell" ELSE IF ~InShared(mem, a, o.n) THEN "wild: access outside the cell's memory"
                   ELSE IF o.x = "m" THEN EffErr(T, wr) ELSE ""
          IN IF e # "" THEN th' = [th EXCEPT ![i].T = Fail(T, e)] /\ UNCHANGED <<mem, buf>>
             ELSE IF ~wr THEN
                /\ CanRead(b, a, o.n)
                /\ LET v == Order(T, MemRead(BufMem(mem, b), a, o.n)) IN
                   th' = [th EXCEPT ![i] = Advance(i, [Next1(Set(T, o.d, v)) EXCEPT !.rsv = IF o.k = "ll" THEN <<a, o.q>> ELSE @])]
                /\ UNCHANGED <<mem, buf>>
             ELSE LET v == Order(T, Eval(o.e, T)) IN
                IF o.k = "sc" THEN
                   IF ~Reserved(T, a, o.n) THEN th' = [th EXCEPT ![i] = Advance(i, [Next1(Set(T, o.d, <<0>>)) EXCEPT !.rsv = <<>>])] /\ UNCHANGED <<mem, buf>>
                   ELSE \/ /\ mem' = MemWrite(mem, a, v) /\ UNCHANGED buf
                           /\ th' = Foreign([th EXCEPT ![i] = Wrote(i, IF mem' = mem THEN 0 ELSE 1, [Next1(Set(T, o.d, <<1>>)) EXCEPT !.rsv = <<>>])], i, a, o.n)
                        \/ /\ th[i].sp > 0 /\ UNCHANGED <<mem, buf>>           \* a reservation may be lost for no reason
                           /\ th' = [th EXCEPT ![i] = [Advance(i, [Next1(Set(T, o.d, <<0>>)) EXCEPT !.rsv = <<>>]) EXCEPT !.sp = 0, !.fw = @ + 1]]
                ELSE IF Buffers THEN /\ Len(b) < 4
                                /\ buf' = [buf EXCEPT ![i] = Append(@, <<a, v>>)]
                                /\ th' = [th EXCEPT ![i] = Wrote(i, 1, Next1(T))] /\ UNCHANGED mem
                ELSE /\ mem' = MemWrite(mem, a, v) /\ UNCHANGED buf
                     /\ th' = Foreign([th EXCEPT ![i] = Wrote(i, 1, Next1(T))], i, a, o.n)
  /\ UNCHANGED sc

Flush(i) ==
  /\ buf[i] # <<>> /\ ~Failed
  /\ mem' = MemWrite(mem, buf[i][1][1], buf[i][1][2])
  /\ buf' = [buf EXCEPT ![i] = Tail(@)]
  /\ th' = Foreign(th, i, buf[i][1][1], Len(buf[i][1][2]))
  /\ UNCHANGED sc

Next == \E i \in 1..NT : Step(i) \/ Flush(i)
Spec == Init /\ [][Next]_vars

(* ------------------------------ verdicts ------------------------------------ *)
Terminal == (\A i \in 1..NT : Done(i)) /\ \A i \in 1..NT : buf[i] = <<>>
CellVal(k) == MemRead(mem, S.cells[k].at, S.cells[k].w)
OrdV(v) == IF ScBE(sc) THEN Rev(v) ELSE v
(* the calls on cell k of thread i, in program order                             *)
Calls(i, k) == SelectSeq(TLCEval([j \in 1..Len(S.threads[i]) |-> j]), LAMBDA j : S.threads[i][j].c = k)
RECURSIVE Explain(_, _, _)
(* some order of the remaining calls (pos[i] of thread i done) explains cell k   *)
Explain(k, m, pos) ==
  IF \A i \in 1..NT : pos[i] = Len(Calls(i, k)) THEN m = OrdV(CellVal(k))
  ELSE \E i \in 1..NT : pos[i] < Len(Calls(i, k)) /\
       LET j == Calls(i, k)[pos[i] + 1]  c == CallAt(i, j)  h == th[i].h[j] IN
       \E o \in OpOuts(Progs[c.p].op, m, c.a, c.b) :
          /\ h.ok = (IF o.ok THEN 1 ELSE 0) /\ (o.res = <<>> \/ h.res = o.res)
          /\ Explain(k, o.mem, [pos EXCEPT ![i] = @ + 1])
OneCell(k) == Explain(k, S.cells[k].m, TLCEval([i \in 1..NT |-> 0]))

(* the history as events                                                        *)
EvOf(i, j) ==
  LET c == CallAt(i, j)  h == th[i].h[j]  op == Progs[c.p].op
      cas == op \in {"ce", "cw", "fu"} IN
  [t |-> i, i |-> j, l |-> c.c,
   o |-> IF cas /\ h.ok = 0 THEN c.f ELSE c.o,
   r |-> IF op \in {"st", "nw"} THEN <<>> ELSE h.res,
   w |-> CASE op \in {"st", "sw", "nw"} -> c.a
           [] op \in {"ce", "cw"} -> IF h.ok = 1 THEN c.b ELSE <<>>
           [] op = "fu" -> IF h.ok = 1 THEN XorV(h.res, c.a) ELSE <<>>
           [] OTHER -> <<>>]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Events == TLCEval([k \in 1..Len(S.cells) |-> [t |-> 0, i |-> 0, l |-> k, o |-> 0, r |-> <<>>, w |-> S.cells[k].m]])
          \o Flat(TLCEval([i \in 1..NT |-> TLCEval([j \in 1..Len(S.threads[i]) |-> EvOf(i, j)])]))

Hist == TLCEval([i \in 1..NT |-> th[i].h])
Bad(w) == PrintT("BAD " \o ToJson([w |-> w, s |-> S.name, h |-> Hist, m |-> TLCEval([k \in 1..Len(S.cells) |-> CellVal(k)])]))
Verdict ==
  /\ \A i \in 1..NT : (~Done(i) /\ th[i].T.err # "") => Bad(th[i].T.err)
  /\ \A i \in 1..NT : ~Done(i) => (th[i].k <= CallAt(i, th[i].j).k * (2 + th[i].fw) \/ Bad("retry: more steps than the interference explains"))
  /\ Terminal => IF ~(\A k \in 1..Len(S.cells) : OneCell(k)) THEN Bad("cell: no order of the calls explains the results")
                 ELSE S.order > 0 => (Consistent(S.order, Events, TLCEval([k \in 1..Len(S.cells) |-> OrdV(CellVal(k))])) \/ Bad("order: outcome forbidden by the requested orderings"))
  /\ \A x \in DOMAIN mem : (\E k \in 1..Len(S.cells) : x >= S.cells[k].at /\ x < S.cells[k].at + S.cells[k].w) \/ mem[x] = Canary(x) \/ Bad("neighbour: a byte outside every cell changed")
Stop == \A i \in 1..NT : ~Done(i) => th[i].k <= CallAt(i, th[i].j).k * (2 + th[i].fw)
=============================================================================
