---------------------------------- MODULE Hw ----------------------------------
(* Litmus programs built from the recorded events of compiled operations        *)
(* (Skel), judged under the axiomatic memory model of the processor: every      *)
(* execution the processor allows must be one that the requested orderings      *)
(* allow (RC11).                                                                *)
(*   "armv8"  multi-copy atomic, Armv8 ordered-before                           *)
(*   "rvwmo"  RISC-V weak memory ordering, preserved program order              *)
(*   "power"  herding-cats POWER (not multi-copy atomic)                        *)
(*   "weak"   multi-copy atomic, nothing ordered but by barriers                *)
(*   "rmo" "pso" "tso"  the SPARC models; z/Architecture is "tso"               *)
EXTENDS RC11, Json, Integers

CONSTANTS ScenFile
In == JsonDeserialize(ScenFile)
Skels == In.skels      \* [ev: <<[k, o, f (barrier: set of pairs), x, ll, c, wb]>>, rd, wr: event numbers or 0]
Scens == In.scens      \* [name, model, lvl, nc, threads: << << [s, l, o] >> >>]

VARIABLES s, ex        \* scenario; the executions of the cells chosen so far
vars == <<s, ex>>

(* ------------------------------ events -------------------------------------- *)
RECURSIVE FlatOps(_, _, _, _)
(* events of the remaining operations of thread t; base: number of events so far *)
FlatOps(ops, t, j, base) ==
  IF j > Len(ops) THEN <<>>
  ELSE LET K == Skels[ops[j].s]
           evs == TLCEval([i \in 1..Len(K.ev) |->
                   [t |-> t, p |-> base + i, j |-> j, k |-> K.ev[i].k, l |-> ops[j].l, o |-> K.ev[i].o,
                    f |-> {K.ev[i].f[q] : q \in 1..Len(K.ev[i].f)},
                    x |-> IF K.ev[i].x = 0 THEN 0 ELSE base + K.ev[i].x, ll |-> K.ev[i].ll,
                    c |-> {base + K.ev[i].c[q] : q \in 1..Len(K.ev[i].c)}, wb |-> K.ev[i].wb]])
       IN evs \o FlatOps(ops, t, j + 1, base + Len(K.ev))
RECURSIVE FlatThr(_, _, _)
FlatThr(thr, t, base) == IF t > Len(thr) THEN <<>>
  ELSE LET f == FlatOps(thr[t], t, 1, base) IN f \o FlatThr(thr, t + 1, base + Len(f))
InitEv(l) == [t |-> 0, p |-> l, j |-> 0, k |-> "W", l |-> l, o |-> "", f |-> {}, x |-> 0, ll |-> 0, c |-> {}, wb |-> 0]
EvsOf(sc) == TLCEval([l \in 1..sc.nc |-> InitEv(l)]) \o FlatThr(sc.threads, 1, sc.nc)
Evs == TLCEval([i \in 1..Len(Scens) |-> EvsOf(Scens[i])])

IsR(e) == e.k = "R"
IsW(e) == e.k = "W"
Po(E, x, y) == E[x].t = E[y].t /\ E[x].t # 0 /\ x < y
Rmws(E) == {w \in 1..Len(E) : IsW(E[w]) /\ E[w].x # 0}

(* ------------------- preserved program order (static part) ------------------- *)
Pair(a, b) == a.k \o b.k
Fenced(E, x, y) == \E z \in x + 1 .. y - 1 : E[z].k = "F" /\ Pair(E[x], E[y]) \in E[z].f
Amo(E, w) == E[w].x # 0 /\ E[E[w].x].ll = 0
ArmA(e) == IsR(e) /\ e.o \in {"A", "AL"}
ArmQ(e) == IsR(e) /\ e.o = "Q"
ArmL(e) == IsW(e) /\ e.o \in {"L", "AL"}
RvA(e) == e.o \in {"aq", "aqrl"}
RvL(e) == e.o \in {"rl", "aqrl"}
(* LoongArch: _db operations and successful LL/SC pairs order everything        *)
Strong(E, x) == E[x].o = "db" \/ E[x].o = "sc" \/ (E[x].o = "ll" /\ \E w \in Rmws(E) : E[w].x = x)
Locked(E, x) == \E w \in Rmws(E) : (w = x \/ E[w].x = x) /\ Amo(E, w)

PpoArm(E, x, y) ==
  \/ Fenced(E, x, y) \/ ArmA(E[x]) \/ ArmQ(E[x]) \/ ArmL(E[y]) \/ (ArmL(E[x]) /\ ArmA(E[y])) \/ E[y].x = x
  \/ \E w \in Rmws(E) : Amo(E, w) /\ ArmL(E[w]) /\ ArmA(E[E[w].x]) /\ x < E[w].x /\ w < y /\ E[w].t = E[x].t
PpoRv(E, x, y) ==
  \/ Fenced(E, x, y) \/ RvA(E[x]) \/ RvL(E[y]) \/ (E[x].o # "" /\ E[y].o # "") \/ E[y].x = x
  \/ (E[x].l = E[y].l /\ IsW(E[y]))
PpoWeak(E, x, y) == Fenced(E, x, y) \/ Strong(E, x) \/ Strong(E, y)
PpoTso(E, x, y) == ~(IsW(E[x]) /\ IsR(E[y])) \/ Fenced(E, x, y) \/ Locked(E, x) \/ Locked(E, y)
PpoPso(E, x, y) == IsR(E[x]) \/ Fenced(E, x, y)
Ppo1(m, E, x, y) == CASE m = "armv8" -> PpoArm(E, x, y) [] m = "rvwmo" -> PpoRv(E, x, y) [] m = "weak" -> PpoWeak(E, x, y)
                      [] m = "tso" -> PpoTso(E, x, y) [] m = "pso" -> PpoPso(E, x, y) [] m = "rmo" -> Fenced(E, x, y)
                      [] m = "power" -> FALSE
MemEv(e) == e.k \in {"R", "W"}
(* SPARC: an atomic instruction's read and write are one point in memory order  *)
Points(E, P) == LET R1 == TLCEval([x \in 1..Len(E) |-> IF IsW(E[x]) /\ E[x].x # 0 THEN P[x] \cup (P[E[x].x] \ {x}) ELSE P[x]]) IN
                TLCEval([x \in 1..Len(E) |-> R1[x] \cup {E[w].x : w \in {w \in Rmws(E) : w \in R1[x] /\ E[w].x # x}}])
PpoOf(sc, E) == LET P == TLCEval([x \in 1..Len(E) |-> IF ~MemEv(E[x]) THEN {} ELSE {y \in x + 1..Len(E) : MemEv(E[y]) /\ Po(E, x, y) /\ Ppo1(sc.model, E, x, y)}])
                IN IF sc.model \in {"pso", "rmo"} THEN Points(E, P) ELSE P
Ppos == TLCEval([i \in 1..Len(Scens) |-> PpoOf(Scens[i], Evs[i])])

(* POWER: barriers and control + isync                                          *)
Bar(E, x, y, f) == \E z \in x + 1 .. y - 1 : E[z].k = "F" /\ E[z].o = f
RelOf(E, P(_, _)) == TLCEval([x \in 1..Len(E) |-> IF ~MemEv(E[x]) THEN {} ELSE {y \in 1..Len(E) : MemEv(E[y]) /\ P(x, y)}])
PwOf(E) ==
  LET Ff(x, y) == Po(E, x, y) /\ Bar(E, x, y, "sync")
      Lf(x, y) == Po(E, x, y) /\ Bar(E, x, y, "lwsync") /\ ~(IsW(E[x]) /\ IsR(E[y]))
      Ci(x, y) == Po(E, x, y) /\ IsR(E[x]) /\ \E z \in x + 1 .. y - 1 : E[z].k = "F" /\ E[z].o = "isync" /\ x \in E[z].c
      Pl(x, y) == Po(E, x, y) /\ E[x].l = E[y].l
  IN [ff |-> RelOf(E, Ff), fence |-> Un(RelOf(E, Ff), RelOf(E, Lf)), ci |-> RelOf(E, Ci), pl |-> RelOf(E, Pl)]
Pws == TLCEval([i \in 1..Len(Scens) |-> IF Scens[i].model = "power" THEN PwOf(Evs[i]) ELSE <<>>])

(* ------------------- coherent executions of one cell ------------------------- *)
WsOf(E, l) == {w \in 1..Len(E) : E[w].l = l /\ IsW(E[w])}
RsOf(E, l) == {r \in 1..Len(E) : E[r].l = l /\ IsR(E[r])}
RECURSIVE Orders(_, _, _)
(* linear orders of the writes S that respect program order                      *)
Orders(E, S, acc) == IF S = {} THEN {acc}
  ELSE UNION {Orders(E, S \ {w}, Append(acc, w)) : w \in {w \in S : \A v \in S : ~Po(E, v, w)}}
CoPos(co, w) == CHOOSE i \in 1..Len(co) : co[i] = w
OkRead(E, co, rf, r, w) ==
  LET k == CoPos(co, w) IN
  /\ \A v \in {co[i] : i \in 1..Len(co)} : (Po(E, v, r) => CoPos(co, v) <= k) /\ (Po(E, r, v) => CoPos(co, v) > k)
  /\ \A q \in DOMAIN rf : (Po(E, q, r) => CoPos(co, rf[q]) <= k) /\ (Po(E, r, q) => CoPos(co, rf[q]) >= k)
  /\ \A v \in {co[i] : i \in 1..Len(co)} : E[v].x = r => CoPos(co, v) = k + 1
RECURSIVE Reads(_, _, _, _)
Reads(E, co, S, rf) == IF S = {} THEN {rf}
  ELSE LET r == CHOOSE r \in S : \A q \in S : r <= q IN
       UNION {Reads(E, co, S \ {r}, (r :> w) @@ rf) : w \in {w \in {co[i] : i \in 1..Len(co)} : OkRead(E, co, rf, r, w)}}
CellEx(E, l) == LET init == CHOOSE w \in WsOf(E, l) : E[w].t = 0 IN
  UNION {{[co |-> co, rf |-> rf] : rf \in Reads(E, co, RsOf(E, l), <<>>)} : co \in Orders(E, WsOf(E, l) \ {init}, <<init>>)}

Init == s \in 1..Len(Scens) /\ ex = <<>>
Next == /\ Len(ex) < Scens[s].nc
        /\ \E X \in CellEx(Evs[s], Len(ex) + 1) : ex' = Append(ex, X)
        /\ s' = s
Spec == Init /\ [][Next]_vars

(* ------------------------------ the processor -------------------------------- *)
E0 == Evs[s]
N == Len(E0)
RF == TLCEval([r \in 1..N |-> IF IsR(E0[r]) THEN ex[E0[r].l].rf[r] ELSE 0])
Ext(x, y) == E0[x].t # E0[y].t
RfeR == TLCEval([x \in 1..N |-> {y \in 1..N : RF[y] = x /\ Ext(x, y)}])
RfiR == TLCEval([x \in 1..N |-> {y \in 1..N : RF[y] = x /\ ~Ext(x, y)}])
CoR == TLCEval([x \in 1..N |-> IF ~IsW(E0[x]) THEN {} ELSE LET co == ex[E0[x].l].co k == CoPos(co, x) IN {co[i] : i \in k + 1 .. Len(co)}])
FrR == TLCEval([x \in 1..N |-> IF ~IsR(E0[x]) THEN {} ELSE LET co == ex[E0[x].l].co k == CoPos(co, RF[x]) IN {co[i] : i \in k + 1 .. Len(co)}])
OnlyExt(M) == TLCEval([x \in 1..N |-> {y \in M[x] : Ext(x, y)}])
Dyn(x, y) ==
  CASE Scens[s].model = "armv8" -> IsW(E0[x]) /\ E0[x].x # 0 /\ RF[y] = x /\ Po(E0, x, y) /\ (ArmA(E0[y]) \/ ArmQ(E0[y]))
    [] Scens[s].model = "rvwmo" ->
         \/ IsW(E0[x]) /\ E0[x].x # 0 /\ IsR(E0[y]) /\ RF[y] = x /\ Po(E0, x, y)
         \/ IsR(E0[x]) /\ IsR(E0[y]) /\ E0[x].l = E0[y].l /\ Po(E0, x, y) /\ RF[x] # RF[y] /\ ~\E z \in x + 1 .. y - 1 : IsW(E0[z]) /\ E0[z].l = E0[x].l
    [] OTHER -> FALSE
AllowedMca == LET co == OnlyExt(CoR)  fr == OnlyExt(FrR)
                  dyn == TLCEval([x \in 1..N |-> {y \in x + 1 .. N : Dyn(x, y)}])
              IN Acyclic(Un(Un(Un(Un(Ppos[s], dyn), RfeR), co), fr))
Both(A, B) == TLCEval([x \in 1..N |-> A[x] \cap B[x]])
Only(A, P(_), Q(_)) == TLCEval([x \in 1..N |-> IF P(x) THEN {y \in A[x] : Q(y)} ELSE {}])
RR_(x) == IsR(E0[x])
WW_(x) == IsW(E0[x])
RECURSIVE PpoFix(_, _, _, _, _)
PpoFix(ii, ic, ci, cc, n) ==
  LET ii2 == Un(Un(Un(ii, ci), Join(ic, ci)), Join(ii, ii))
      ic2 == Un(Un(Un(Un(ic, ii), cc), Join(ic, cc)), Join(ii, ic))
      ci2 == Un(Un(ci, Join(ci, ii)), Join(cc, ci))
      cc2 == Un(Un(Un(cc, ci), Join(ci, ic)), Join(cc, cc))
  IN IF <<ii2, ic2, ci2, cc2>> = <<ii, ic, ci, cc>> \/ n = 0 THEN Un(Only(ii, RR_, RR_), Only(ic, RR_, WW_)) ELSE PpoFix(ii2, ic2, ci2, cc2, n - 1)
AllowedPower ==
  LET P == Pws[s]  coe == OnlyExt(CoR)  fre == OnlyExt(FrR)
      rdw == Both(P.pl, Join(fre, RfeR))  det == Both(P.pl, Join(coe, RfeR))
      None == TLCEval([x \in 1..N |-> {}])
      ppo == PpoFix(Un(rdw, RfiR), None, Un(P.ci, det), P.pl, 20)
      hb == Un(Un(ppo, P.fence), RfeR)
      hbs == Refl(TC(hb))
      base == Join(Un(P.fence, Join(RfeR, P.fence)), hbs)
      com == Un(Un(Un(RfeR, RfiR), CoR), FrR)
      prop == Un(Only(base, WW_, WW_), Join(Join(Join(Refl(TC(com)), Refl(TC(base))), P.ff), hbs))
      obs == Join(Join(fre, prop), hbs)
  IN /\ Acyclic(hb)
     /\ \A x \in 1..N : x \notin obs[x]
     /\ Acyclic(Un(CoR, prop))
Allowed == IF Scens[s].model = "power" THEN AllowedPower ELSE AllowedMca

(* ------------------------------ the language --------------------------------- *)
Thr == Scens[s].threads
RECURSIVE Before(_, _)
Before(t, base) == IF t = 1 THEN base ELSE Before(t - 1, base + Len(Thr[t - 1]))
OpIx(t, j) == Scens[s].nc + Before(t, 0) + j                   \* number of the language event
NOps == Scens[s].nc + Before(Len(Thr) + 1, 0)
EvIx(t, j, i) == (CHOOSE x \in 1..N : E0[x].t = t /\ E0[x].j = j /\ \A y \in 1..N : (E0[y].t = t /\ E0[y].j = j) => x <= y) + i - 1
TJ(x) == CHOOSE p \in {<<t, j>> : t \in 1..Len(Thr), j \in 1..4} : p[2] <= Len(Thr[p[1]]) /\ OpIx(p[1], p[2]) = x
LE == TLCEval([x \in 1..NOps |-> IF x <= Scens[s].nc THEN [t |-> 0, i |-> 0, l |-> x, o |-> 0, r |-> <<>>, w |-> <<x>>]
        ELSE LET p == TJ(x)  op == Thr[p[1]][p[2]]  K == Skels[op.s] IN
             [t |-> p[1], i |-> p[2], l |-> op.l, o |-> op.o, r |-> IF K.rd = 0 THEN <<>> ELSE <<x>>, w |-> IF K.wr = 0 THEN <<>> ELSE <<x>>]])
(* the language event whose value a processor write carries: a write-back of the *)
(* value just read stands for the write it was read from                        *)
RECURSIVE Src(_)
Src(w) == IF E0[w].t = 0 THEN E0[w].l ELSE IF E0[w].wb = 1 THEN Src(RF[E0[w].x]) ELSE OpIx(E0[w].t, E0[w].j)
LRf == TLCEval([x \in 1..NOps |-> IF LE[x].r = <<>> THEN 0 ELSE LET p == TJ(x) IN Src(RF[EvIx(p[1], p[2], Skels[Thr[p[1]][p[2]].s].rd)])])
LMo == TLCEval([l \in 1..Scens[s].nc |-> LET c == SelectSeq(ex[l].co, LAMBDA w : E0[w].wb = 0) IN TLCEval([i \in 1..Len(c) |-> Src(c[i])])])
Fin == TLCEval([l \in 1..Scens[s].nc |-> LET m == LMo[l] IN LE[m[Len(m)]].w])
Lang == ConsistentWith(Scens[s].lvl, LE, LRf, LMo, Fin)

Done == Len(ex) = Scens[s].nc
Verdict == Done => (Lang \/ ~Allowed \/ PrintT("BAD " \o ToJson([s |-> Scens[s].name, rf |-> RF, co |-> TLCEval([l \in 1..Scens[s].nc |-> ex[l].co])])))
===============================================================================
