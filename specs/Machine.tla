------------------------------- MODULE Machine -------------------------------
(* The machine the compiled operations run on: micro-operations over byte       *)
(* values, private and shared memory, store buffers, locked groups, inline-     *)
(* assembly blocks with their operand contract.  The programs (Progs) are the   *)
(* crate's own compiled code, lifted by lib/llir.py from LLVM IR and assembly   *)
(* templates; everything that is decided about them is decided here.            *)
EXTENDS AtomicCell, Bytes, TLC, Json, FiniteSetsExt

CONSTANTS ProgFile,       \* JSON: sequence of programs
          Track           \* record the shared bytes touched
Progs == JsonDeserialize(ProgFile)

ABUF == 8192  BBUF == 8224  OUTBUF == 8256  SP == 12032
IsPrivate(a) == a >= 8192 /\ a < 12288
Cell0 == 4096                     \* shared memory starts here

(* ------------------------------ expressions --------------------------------- *)
RECURSIVE Eval(_, _)
Eval(e, T) ==
  LET k == e[1] IN
  CASE k = "c"    -> e[2]
    [] k = "r"    -> T.R[e[2]]
    [] k = "m"    -> T.R[e[2]]
    [] k = "o"    -> T.R[T.A[e[2]]]
    [] k = "o0"   -> IF T.A[e[2]] = "r0" THEN Rep(0, Len(T.R["r0"])) ELSE T.R[T.A[e[2]]]   \* register 0 as a base address reads as 0
    [] k = "ext"  -> Sub(Eval(e[2], T), e[3], e[4])
    [] k = "cat"  -> Eval(e[2], T) \o Eval(e[3], T)
    [] k = "zext" -> Zext(Eval(e[2], T), e[3])
    [] k = "sext" -> Sext(Eval(e[2], T), e[3])
    [] k = "sext1" -> LET x == Eval(e[2], T)[1] IN Rep(IF x = U THEN U ELSE IF x % 2 = 1 THEN 255 ELSE 0, e[3])
    [] k = "add"  -> Add(Eval(e[2], T), Eval(e[3], T))
    [] k = "sub"  -> Subt(Eval(e[2], T), Eval(e[3], T))
    [] k = "and"  -> Map2(AndB, Eval(e[2], T), Eval(e[3], T))
    [] k = "or"   -> Map2(OrB, Eval(e[2], T), Eval(e[3], T))
    [] k = "xor"  -> Map2(XorB, Eval(e[2], T), Eval(e[3], T))
    [] k = "not"  -> NotV(Eval(e[2], T))
    [] k = "shl"  -> Shl(Eval(e[2], T), Eval(e[3], T))
    [] k = "lshr" -> Lshr(Eval(e[2], T), Eval(e[3], T))
    [] k = "ashr" -> Ashr(Eval(e[2], T), Eval(e[3], T))
    [] k = "rotr" -> Rotr(Eval(e[2], T), e[3])
    [] k = "pop"  -> LET v == Eval(e[2], T) IN IF Undef(v) THEN Rep(U, e[3]) ELSE FromNum(PopCount(v), e[3])
    [] k = "rev"  -> Rev(Eval(e[2], T))
    [] k = "eq"   -> <<EqV(Eval(e[2], T), Eval(e[3], T))>>
    [] k = "ult"  -> <<UltV(Eval(e[2], T), Eval(e[3], T))>>
    [] k = "slt"  -> <<SltV(Eval(e[2], T), Eval(e[3], T))>>
    [] k = "bit0" -> LET x == Eval(e[2], T)[1] IN <<IF x = U THEN U ELSE x % 2>>
    [] k = "not1" -> LET x == Eval(e[2], T)[1] IN <<IF x = U THEN U ELSE 1 - x>>
    [] k = "ite"  -> LET c == Eval(e[2], T)[1] IN
                     IF c = U THEN Rep(U, Len(Eval(e[3], T))) ELSE IF c = 1 THEN Eval(e[3], T) ELSE Eval(e[4], T)
    [] k = "frz"  -> Frz(Eval(e[2], T), T.g)
    [] k = "rep"  -> Rep(e[2], e[3])
    [] k = "q64"  -> Quiet64(Eval(e[2], T))
    [] k = "q32"  -> Quiet32(Eval(e[2], T))
    [] OTHER      -> Assert(FALSE, <<"expression", e>>)

(* ------------------------------ threads ------------------------------------- *)
(* pc, R registers and SSA values, A operand allocation of the current block,   *)
(* al allocations to use (per block; <<>> = the default one), pm private        *)
(* memory, buf store buffer, rsv reservation, err first violation, g garbage,   *)
(* cb current asm block, sn snapshot at block entry, n local steps taken,       *)
(* fr/fw shared bytes read/written, sp/su counters.                             *)
Thread(p, c, a, b, n, g, al) ==
  [p |-> p, pc |-> 1, rsv |-> <<>>, R |-> ("Pc" :> FromNum(c, Progs[p].ptr)) @@ ("IF" :> <<1>>), A |-> <<>>, al |-> al,
   pm |-> TLCEval([x \in (ABUF .. ABUF + n - 1) \cup (BBUF .. BBUF + n - 1) |-> 
            LET i == IF x < BBUF THEN x - ABUF + 1 ELSE x - BBUF + 1  j == IF Progs[p].be = 1 THEN n + 1 - i ELSE i
            IN IF x < BBUF THEN a[j] ELSE b[j]]),
   err |-> "", g |-> g, cb |-> 0, sn |-> <<>>, n |-> 0, ret |-> <<>>, fr |-> {}, fw |-> {}, if0 |-> <<1>>]

Code(T) == Progs[T.p].code
Op(T)   == Code(T)[T.pc]
Fail(T, w) == IF T.err # "" THEN T ELSE [T EXCEPT !.err = w]
Halted(T) == T.err # "" \/ T.ret # <<>>
Set(T, r, v) == [T EXCEPT !.R = (r :> v) @@ @]
Next1(T) == [T EXCEPT !.pc = @ + 1, !.n = @ + 1]
PmRead(T, a, n) == LET v == TLCEval([i \in 1..n |-> IF (a + i - 1) \in DOMAIN T.pm THEN T.pm[a + i - 1] ELSE U])
                   IN IF Progs[T.p].be = 1 THEN Rev(v) ELSE v
PmWrite(T, a, v0) == LET v == IF Progs[T.p].be = 1 THEN Rev(v0) ELSE v0 IN
                    [T EXCEPT !.pm = TLCEval([x \in DOMAIN T.pm \cup (a .. a + Len(v) - 1) |->
                                        IF x >= a /\ x < a + Len(v) THEN v[x - a + 1] ELSE T.pm[x]])]
BE(T) == Progs[T.p].be = 1
PcOk(T) == Assert(T.pc \in 1..Len(Code(T)), <<"pc", T.p, T.pc>>)

(* ------------------ inline assembly: operands and contract ------------------ *)
Blk(T, b) == Progs[T.p].blocks[b]
(* allocations the register allocator may choose for block b: fixed operands in *)
(* their register, ties honoured, outputs pairwise distinct, early-clobber      *)
(* outputs distinct from all inputs, nothing in a clobbered register; two       *)
(* inputs may share a register (only if their values agree, checked at entry);  *)
(* a late output may share with an untied input.                                *)
PairOK(blk, A, j, k) ==
  LET ops == blk.ops IN
  CASE ops[j].dir = "out" /\ ops[k].dir = "out" -> A[j] # A[k]
    [] ops[j].dir = "out" /\ ops[k].dir = "in" ->
         \/ ops[k].tie = j - 1
         \/ A[j] # A[k]
         \/ ~ops[j].early /\ ops[k].tie < 0 /\ \A i \in 1..Len(ops) : ops[i].tie # j - 1
    [] ops[j].dir = "in" /\ ops[k].dir = "in" -> A[j] # A[k] \/ (ops[j].tie < 0 /\ ops[k].tie < 0)
    [] OTHER -> TRUE
(* blk.sym: lists of interchangeable registers; only the first choice up to     *)
(* renaming is explored                                                         *)
CanUse(blk, A, r) == \A q \in 1..Len(blk.sym) : \A i \in 2..Len(blk.sym[q]) :
                        blk.sym[q][i] = r => \E j \in 1..Len(A) : A[j] = blk.sym[q][i - 1]
AllocStep(blk, A, k) ==
  LET o == blk.ops[k]
      C == IF o.fix # "" THEN {o.fix} ELSE IF o.tie >= 0 THEN {A[o.tie + 1]}
           ELSE {r \in {o.pool[i] : i \in 1..Len(o.pool)} : CanUse(blk, A, r)}
      clob == {blk.clobregs[i] : i \in 1..Len(blk.clobregs)}
  IN {B \in {Append(A, r) : r \in C} : /\ (o.dir = "out" \/ o.fix = "") => B[k] \notin clob
                                       /\ \A j \in 1..k - 1 : PairOK(blk, B, j, k)}
RECURSIVE AllocsR(_, _)
AllocsR(blk, k) == IF k = 0 THEN {<<>>} ELSE UNION {AllocStep(blk, A, k) : A \in AllocsR(blk, k - 1)}
Allocs(blk) == AllocsR(blk, Len(blk.ops))

RegW(blk, r) == LET i == CHOOSE i \in 1..Len(blk.all) : blk.all[i][1] = r IN blk.all[i][2]
Marker(blk, r, i) == TLCEval([j \in 1..RegW(blk, r) |-> (i * 37 + j * 11 + 5) % 256])

Enter(T, b) ==
  LET blk == Blk(T, b)
      A == IF T.al = <<>> THEN blk.def ELSE T.al[b]
      K == 1..Len(blk.ops)
      In == {k \in K : blk.ops[k].dir = "in"}
      (* the bits above the operand's size are arbitrary; uninitialised bytes    *)
      (* are some arbitrary byte                                                 *)
      Val(k) == LET v == Frz(Eval(blk.ops[k].e, T), T.g) w == RegW(blk, A[k]) IN
                TLCEval([i \in 1..w |-> IF i <= Len(v) THEN v[i] ELSE IF blk.ops[k].x = 1 THEN (IF v[Len(v)] >= 128 THEN 255 ELSE 0) ELSE T.g])
      vals == TLCEval([k \in In |-> Val(k)])
      clash == \E j, k \in In : j < k /\ A[j] = A[k] /\ vals[j] # vals[k]
      (* registers that hold no input: some arbitrary content (two choices for   *)
      (* outputs and clobbered registers, picked with the arbitrary byte)         *)
      free == {A[k] : k \in K} \cup {blk.clobregs[i] : i \in 1..Len(blk.clobregs)}
      base == TLCEval([i \in 1..Len(blk.all) |->
                IF T.g = 255 /\ blk.all[i][1] \in free THEN Rep(0, blk.all[i][2]) ELSE Marker(blk, blk.all[i][1], i)])
      R1 == TLCEval([r \in {blk.all[i][1] : i \in 1..Len(blk.all)} |->
               IF \E k \in In : A[k] = r THEN vals[CHOOSE k \in In : A[k] = r]
               ELSE IF r = blk.sp THEN FromNum(SP, RegW(blk, r))
               ELSE base[CHOOSE i \in 1..Len(blk.all) : blk.all[i][1] = r]])
      R3 == R1 @@ ("FL" :> <<0>>) @@ TLCEval([r \in {"zf", "cf", "sf", "of"} |-> IF T.g = 255 THEN <<1>> ELSE <<0>>])
  IN IF clash THEN Fail(T, "skip")
     ELSE Next1([T EXCEPT !.A = A, !.R = R3 @@ @, !.cb = b, !.sn = [R |-> R1, pm |-> T.pm]])

(* leaving the block: every register that is neither an output nor declared     *)
(* clobbered must hold what it held at entry; likewise flags and stack          *)
Leave(T, b) ==
  LET blk == Blk(T, b)  A == T.A
      K == 1..Len(blk.ops)
      outs == {A[k] : k \in {k \in K : blk.ops[k].dir = "out"}}
      clob == {blk.clobregs[i] : i \in 1..Len(blk.clobregs)}
      regs == {blk.all[i][1] : i \in 1..Len(blk.all)}
      bad == {r \in regs \ (outs \cup clob) : T.R[r] # T.sn.R[r]}
      OutV(k) == Sub(T.R[A[k]], 0, blk.ops[k].n)
      T1 == [T EXCEPT !.R = TLCEval([x \in {"O" \o ToString(b) \o "_" \o ToString(k) : k \in {k \in K : blk.ops[k].dir = "out"}} |->
                   OutV(CHOOSE k \in K : x = "O" \o ToString(b) \o "_" \o ToString(k))]) @@ @, !.cb = 0, !.sn = <<>>]
  IN IF bad # {} THEN Fail(T, "clobber: register not restored: " \o ToString(bad))
     ELSE IF blk.flags = 0 /\ T.R["FL"] # <<0>> THEN Fail(T, "clobber: condition flags change in a block that promises to preserve them")
     ELSE IF blk.stack = 0 /\ \E x \in SP - 256 .. SP + 63 : x \in DOMAIN T.pm /\ (x \notin DOMAIN T.sn.pm \/ T.pm[x] # T.sn.pm[x]) /\ (T.pm[x] # U)
          THEN Fail(T, "clobber: stack changed")
     ELSE Next1(T1)

(* --------------------------- local micro-operations ------------------------- *)
AddrOf(e, T) == LET v == Eval(e, T) IN IF Small(v) THEN Num2(v) ELSE -1
IsMem(o) == o.k \in {"ld", "st", "ll", "sc"}
Masked(T) == T.R["IF"] = <<0>>            \* interrupts disabled
Visible(T) == LET o == Op(T) IN
   \/ o.k \in {"at", "fn", "irq"}
   \/ IsMem(o) /\ LET a == AddrOf(o.a, T) IN ~(IsPrivate(a))

(* what a block may do to memory according to its declared effects              *)
EffErr(T, wr) ==
  IF T.cb = 0 THEN ""
  ELSE LET m == Blk(T, T.cb).mem IN
       IF wr /\ m \in {"none", "read"} THEN "effect: block writes memory but declares that it does not"
       ELSE IF ~wr /\ m \in {"none", "write"} THEN "effect: block reads memory but declares that it does not"
       ELSE ""
BelowSp(T, a) == T.cb # 0 /\ Blk(T, T.cb).stack = 0 /\ a < SP /\ a >= SP - 512

WrReg(T, o) ==
  LET r == IF o.r[1] = "o" THEN T.A[o.r[2]] ELSE o.r[2]
      old == T.R[r]  v == Eval(o.e, T)
  IN Set(T, r, TLCEval([i \in 1..Len(old) |-> IF i > o.off /\ i <= o.off + o.n THEN v[i - o.off]
                                      ELSE IF o.zx = 1 THEN 0 ELSE IF o.zx = 2 THEN (IF v[o.n] >= 128 /\ v[o.n] # U THEN 255 ELSE 0) ELSE old[i]]))

Local(T) ==
  LET o == Op(T) IN
  IF T.n > 3000 THEN Fail(T, "hang: does not finish")
  ELSE CASE o.k = "let" -> Next1(Set(T, o.d, Eval(o.e, T)))
    [] o.k = "wr"  -> Next1(WrReg(T, o))
    [] o.k = "jp"  -> [T EXCEPT !.pc = o.t, !.n = @ + 1]
    [] o.k = "br"  -> LET c == Eval(o.c, T)[1] IN
                      IF c = U THEN Fail(T, IF T.cb # 0 THEN "unsup: assembly branches on an unmodelled flag" ELSE "ub: branch depends on an uninitialised value")
                      ELSE [T EXCEPT !.pc = IF c % 2 = 1 THEN o.t ELSE o.f, !.n = @ + 1]
    [] o.k = "nu"  -> IF Undef(Eval(o.e, T)) THEN Fail(T, o.w) ELSE Next1(T)
    [] o.k = "ub"  -> LET c == Eval(o.c, T)[1] IN IF c = U \/ c % 2 = 0 THEN Fail(T, o.w) ELSE Next1(T)
    [] o.k = "err" -> Fail(T, o.w)
    [] o.k = "cfn" -> Next1(T)
    [] o.k = "clx" -> Next1([T EXCEPT !.rsv = <<>>])
    [] o.k = "asm" -> Enter(T, o.b)
    [] o.k = "end" -> Leave(T, o.b)
    [] o.k = "ret" -> IF T.R["IF"] # T.if0 THEN Fail(T, "clobber: the interrupt state is not restored") ELSE [T EXCEPT !.ret = Eval(o.e, T)]
    [] o.k = "panic" -> Fail(T, o.w)
    [] o.k = "dead" -> Fail(T, o.w)
    [] o.k = "ld"  -> LET a == AddrOf(o.a, T)  e == EffErr(T, FALSE)  v == PmRead(T, a, o.n) IN
                      IF e # "" /\ o.x # "ir" THEN Fail(T, e)
                      ELSE Next1(Set(T, o.d, IF T.cb # 0 THEN Frz(v, T.g) ELSE v))
    [] o.k = "st"  -> LET a == AddrOf(o.a, T)  e == EffErr(T, TRUE) IN
                      IF e # "" /\ o.x # "ir" THEN Fail(T, e)
                      ELSE IF BelowSp(T, a) THEN Fail(T, "clobber: writes below the stack pointer in a block declared not to use the stack")
                      ELSE Next1(PmWrite(T, a, Eval(o.e, T)))
    [] OTHER -> Assert(FALSE, <<"micro-operation", o>>)

RECURSIVE RunLocal(_)
RunLocal(T) == IF Halted(T) \/ Visible(T) THEN T ELSE RunLocal(Local(T))

(* a store-conditional succeeds only while the reservation covers it            *)
Reserved(T, a, n) == T.rsv # <<>> /\ T.rsv[1] <= a /\ a + n <= T.rsv[1] + T.rsv[2]

(* ------------------------------ shared memory -------------------------------- *)
(* mem: function from shared addresses to bytes.                                *)
InShared(mem, a, n) == \A i \in 0..n-1 : (a + i) \in DOMAIN mem
MemRead(mem, a, n)  == TLCEval([i \in 1..n |-> mem[a + i - 1]])
MemWrite(mem, a, v) == TLCEval([x \in DOMAIN mem |-> IF x >= a /\ x < a + Len(v) THEN v[x - a + 1] ELSE mem[x]])
(* store buffer entries <<address, bytes>>, oldest first; bytes in memory order  *)
RECURSIVE BufMem(_, _)
BufMem(mem, buf) == IF buf = <<>> THEN mem ELSE BufMem(MemWrite(mem, buf[1][1], buf[1][2]), Tail(buf))
Overlap(e, a, n) == e[1] < a + n /\ a < e[1] + Len(e[2])
Covers(e, a, n)  == e[1] <= a /\ a + n <= e[1] + Len(e[2])
(* a load must wait while the newest overlapping buffered store does not contain it *)
CanRead(buf, a, n) ==
  LET I == {i \in 1..Len(buf) : Overlap(buf[i], a, n)} IN IF I = {} THEN TRUE ELSE Covers(buf[Max(I)], a, n)
Order(T, v) == IF BE(T) THEN Rev(v) ELSE v

Touch(T, a, n, wr) == IF ~Track THEN T ELSE IF wr THEN [T EXCEPT !.fw = @ \cup (a .. a + n - 1)] ELSE [T EXCEPT !.fr = @ \cup (a .. a + n - 1)]

(* the abstract outcomes of a call; the function given to fetch_update declines *)
(* the value b and otherwise maps v to v xor a                                  *)
XorV(a, b) == TLCEval([i \in 1..Len(a) |-> XorB(a[i], b[i])])
OpOuts(op, m, a, b) ==
  CASE op = "fu" -> IF m = b THEN {Out(m, FALSE, m)} ELSE {Out(XorV(m, a), TRUE, m)}
    [] op = "nw" -> {Out(a, TRUE, <<>>)}
    [] OTHER -> Outs(op, m, a, b)

(* A locked group runs in one step on the memory itself.  Its body consists of  *)
(* let/wr/ld/st micro-operations; st may carry a condition.                     *)
RECURSIVE Group(_, _, _, _)
Group(body, i, T, mem) ==
  IF i > Len(body) \/ T.err # "" THEN [T |-> T, mem |-> mem]
  ELSE LET o == body[i] IN
    CASE o.k = "let" -> Group(body, i + 1, Set(T, o.d, Eval(o.e, T)), mem)
      [] o.k = "wr"  -> Group(body, i + 1, WrReg(T, o), mem)
      [] o.k = "ld"  -> LET a == AddrOf(o.a, T)  e == EffErr(T, FALSE) IN
           IF e # "" THEN Group(body, i, Fail(T, e), mem)
           ELSE IF IsPrivate(a) THEN Group(body, i + 1, Set(T, o.d, PmRead(T, a, o.n)), mem)
           ELSE IF ~InShared(mem, a, o.n) THEN Group(body, i, Fail(T, "wild: access outside the cell's memory"), mem)
           ELSE Group(body, i + 1, Touch(Set(T, o.d, Frz(Order(T, MemRead(mem, a, o.n)), T.g)), a, o.n, FALSE), mem)
      [] o.k = "st"  -> LET a == AddrOf(o.a, T)  e == EffErr(T, TRUE)  v == Eval(o.e, T) IN
           IF e # "" THEN Group(body, i, Fail(T, e), mem)
           ELSE IF BelowSp(T, a) THEN Group(body, i, Fail(T, "clobber: writes below the stack pointer"), mem)
           ELSE IF IsPrivate(a) THEN Group(body, i + 1, PmWrite(T, a, v), mem)
           ELSE IF ~InShared(mem, a, o.n) THEN Group(body, i, Fail(T, "wild: access outside the cell's memory"), mem)
           ELSE Group(body, i + 1, Touch(T, a, o.n, TRUE), MemWrite(mem, a, Order(T, v)))
=============================================================================
