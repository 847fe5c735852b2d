--------------------------------- MODULE MSeq ---------------------------------
(* One compiled operation alone on the machine: its result, the cell, its       *)
(* neighbourhood, its assembly contract under every register allocation the     *)
(* compiler may choose, and uninitialised bytes.  Every verdict is printed.     *)
EXTENDS Machine

CONSTANTS Mode,     \* "values" | "alloc" | "undef"
          Wide      \* every position in 16 bytes, not only in two words
VARIABLES T, mem, cs
vars == <<T, mem, cs>>

Pr == Progs[cs.p]
W(p) == Progs[p].w
(* memory: the cell in the middle of three aligned words of 16 bytes            *)
Win == 48
CellAt(p, off) == Cell0 + 16 + off
Canary(x) == ((x - Cell0) * 29 + 7) % 256
InitMem(p, c, m) == TLCEval([x \in Cell0 .. Cell0 + Win - 1 |->
                       IF x >= c /\ x < c + W(p) THEN (IF Progs[p].be = 1 THEN Rev(m) ELSE m)[x - c + 1] ELSE Canary(x)])

Asc(n)  == TLCEval([i \in 1..n |-> 16 * i + 3])
Desc(n) == TLCEval([i \in 1..n |-> 251 - 13 * i])
Flip(v, i, d) == [v EXCEPT ![i] = (@ + d) % 256]
SNaN(n) == TLCEval([i \in 1..n |-> IF i = n THEN 127 ELSE IF i = n - 1 THEN (IF n = 4 THEN 128 ELSE 240) ELSE 1])
Vals(n) == {Asc(n), Rep(255, n), SNaN(n)}
UndefAt(v, S) == TLCEval([i \in 1..Len(v) |-> IF i \in S THEN U ELSE v[i]])
Masks(n) == {1..n, {1}, {n}} \cup (IF n > 1 THEN {2..n} ELSE {})
IsCas(p) == Progs[p].op \in {"ce", "cw"}
Needs(p) == Progs[p].op # "ld"

Cases(p) ==
  LET n == W(p)  Z == Rep(0, n) IN
  CASE Mode = "values" ->
        IF IsCas(p) THEN {<<m, a, b>> \in {<<m, a, b>> : m \in {Asc(n), Rep(255, n)}, b \in {Desc(n)},
                                           a \in {Asc(n), Rep(255, n)} \cup {Flip(Asc(n), i, d) : i \in 1..n, d \in {1, 128}}} : TRUE}
                         \cup {<<Asc(n), Asc(n), Asc(n)>>, <<SNaN(n), SNaN(n), Z>>, <<Z, Z, SNaN(n)>>, <<Z, Rep(255, n), Rep(255, n)>>}
        ELSE IF Progs[p].op = "fu" THEN {<<m, Desc(n), b>> : m \in {Asc(n), Rep(255, n)}, b \in {Asc(n), Flip(Asc(n), n, 1), Rep(255, n)}}
        ELSE IF Needs(p) THEN {<<m, a, Z>> : m \in {Desc(n), Z}, a \in Vals(n)}
        ELSE {<<m, Z, Z>> : m \in Vals(n) \cup {Desc(n), Z}}
    [] Mode = "alloc" ->
        IF IsCas(p) THEN {<<Asc(n), Asc(n), Desc(n)>>, <<Asc(n), Desc(n), Desc(n)>>, <<Desc(n), Desc(n), Desc(n)>>}
        ELSE IF Progs[p].op = "fu" THEN {<<Asc(n), Desc(n), Z>>, <<Asc(n), Desc(n), Asc(n)>>}
        ELSE {<<Asc(n), Desc(n), Z>>, <<Asc(n), Asc(n), Z>>}
    [] Mode = "undef" ->
        IF Progs[p].op = "fu" THEN {<<UndefAt(Asc(n), s), Desc(n), Rep(9, n)>> : s \in Masks(n)} ELSE
        {<<UndefAt(Asc(n), s), Desc(n), Rep(9, n)>> : s \in Masks(n)}
        \cup (IF Needs(p) THEN {<<Asc(n), UndefAt(Desc(n), s), Rep(9, n)>> : s \in Masks(n)} ELSE {})
        \cup (IF IsCas(p) THEN {<<Asc(n), UndefAt(Asc(n), s), Rep(9, n)>> : s \in Masks(n)}
                               \cup {<<Asc(n), Asc(n), UndefAt(Desc(n), s)>> : s \in Masks(n)}
                               \cup {<<UndefAt(Asc(n), s), UndefAt(Asc(n), s), UndefAt(Desc(n), s)>> : s \in Masks(n)} ELSE {})
Offs(p) == IF Mode = "values" /\ Progs[p].w < Progs[p].gran THEN {k \in 0..15 : k % Progs[p].w = 0 /\ (k < 2 * Progs[p].gran \/ Wide)} ELSE {0}
Garbage == {0, 255, 90}
NB(p) == Len(Progs[p].blocks)
Def(p) == TLCEval([i \in 1..NB(p) |-> Progs[p].blocks[i].def])
Alls(p) == IF Mode # "alloc" \/ NB(p) = 0 \/ (NB(p) > 1 /\ Progs[p].blocks[1].sym = <<>>) THEN {<<>>}
           ELSE UNION {{[Def(p) EXCEPT ![b] = A] : A \in Allocs(Progs[p].blocks[b])} : b \in 1..NB(p)}
Has(p, K) == \E i \in 1..Len(Progs[p].code) : Progs[p].code[i].k \in K
(* env 1: the environment changes the rest of the word just before the first    *)
(* attempt to write, which breaks a reservation; if0: interrupts at the call    *)
Envs(p) == IF Mode = "values" /\ (Has(p, {"sc"}) \/ Progs[p].gran > W(p)) /\ Needs(p) THEN {0, 1} ELSE {0}
If0s(p) == IF Has(p, {"irq"}) THEN {0, 1} ELSE {1}

Init ==
  \E p \in 1..Len(Progs) : \E c \in Cases(p) : \E off \in Offs(p) : \E g \in (IF Mode = "values" THEN {255, 90} ELSE IF Mode = "alloc" THEN {90} ELSE Garbage) : \E al \in Alls(p) :
   \E env \in Envs(p) : \E i0 \in If0s(p) :
    /\ cs = [p |-> p, m |-> c[1], a |-> c[2], b |-> c[3], at |-> CellAt(p, off), g |-> g, al |-> al, n |-> 0, env |-> env, hit |-> 0]
    /\ mem = InitMem(p, CellAt(p, off), c[1])
    /\ T = RunLocal([Thread(p, CellAt(p, off), c[2], c[3], W(p), g, al) EXCEPT !.if0 = <<i0>>, !.R = [@ EXCEPT !["IF"] = <<i0>>]])

(* what the declared effects of a block allow the compiler to do with it: an    *)
(* ordered operation must be opaque, and none may be dropped or duplicated      *)
HasFence(p) == \E i \in 1..Len(Progs[p].code) : Progs[p].code[i].k = "cfn"
Contract(X) ==
  IF X.cb = 0 THEN X
  ELSE IF Blk(X, X.cb).side = 0 THEN Fail(X, "order: the block that accesses the cell is declared pure, so the compiler may move, merge or drop it")
  ELSE IF Op(X).k = "irq" /\ Blk(X, X.cb).mem # "full"
       THEN Fail(X, "effect: the block that masks or unmasks interrupts does not keep memory accesses inside the critical section")
  ELSE IF Pr.ordered = 1 /\ Blk(X, X.cb).mem # "full" /\ ~HasFence(X.p)
       THEN Fail(X, "order: the block of an ordered operation does not keep other memory accesses from moving across it (memory effect " \o Blk(X, X.cb).mem \o ")")
  ELSE X

(* one access to shared memory; alone on the machine the store buffer is moot   *)
GranOf == IF Pr.gran > W(cs.p) THEN Pr.gran ELSE W(cs.p)
InNb(x) == LET lo == cs.at - (cs.at % GranOf) IN x >= lo /\ x < lo + GranOf /\ ~(x >= cs.at /\ x < cs.at + W(cs.p))
Frzv(v) == IF T.cb # 0 THEN Frz(v, T.g) ELSE v
Step ==
  /\ ~Halted(T)
  /\ LET o == Op(T)
         hit == cs.env = 1 /\ cs.hit = 0 /\ o.k \in {"st", "sc", "at"} /\ ~Masked(T)
         M == IF hit THEN TLCEval([x \in DOMAIN mem |-> IF InNb(x) THEN mem[x] ^^ 85 ELSE mem[x]]) ELSE mem
     IN
     /\ CASE Contract(T).err # "" -> T' = Contract(T) /\ mem' = mem
       [] o.k = "fn" -> /\ T' = RunLocal(Next1(T)) /\ mem' = mem
       [] o.k = "irq" -> /\ T' = RunLocal(Next1(Set(T, "IF", Eval(o.e, T)))) /\ mem' = mem
       [] o.k = "at" -> LET r == Group(o.body, 1, T, M) IN
                        /\ T' = (IF r.T.err # "" THEN r.T ELSE RunLocal(Next1(r.T))) /\ mem' = r.mem
       [] OTHER ->
          LET a == AddrOf(o.a, T)
              wr == o.k \in {"st", "sc"}
              e == IF o.x = "ir" /\ ~Masked(T) THEN "race: ordinary access to the cell" ELSE IF ~InShared(mem, a, o.n) THEN "wild: access outside the cell's memory"
                   ELSE IF o.k \in {"ll", "sc"} /\ a % o.n # 0 THEN "wild: misaligned exclusive access"
                   ELSE IF o.x = "m" /\ EffErr(T, wr) # "" THEN EffErr(T, wr) ELSE ""
          IN IF e # "" THEN T' = Fail(T, e) /\ mem' = mem
             ELSE IF o.k \in {"ld", "ll"} THEN
                /\ T' = RunLocal(Touch([Next1(Set(T, o.d, Frzv(Order(T, MemRead(mem, a, o.n))))) EXCEPT !.rsv = IF o.k = "ll" THEN <<a, o.q>> ELSE @], a, o.n, FALSE))
                /\ mem' = mem
             ELSE IF o.k = "sc" /\ (hit \/ ~Reserved(T, a, o.n)) THEN
                /\ T' = RunLocal([Next1(Set(T, o.d, <<0>>)) EXCEPT !.rsv = <<>>]) /\ mem' = M
             ELSE /\ T' = RunLocal(Touch([Next1(IF o.k = "sc" THEN Set(T, o.d, <<1>>) ELSE T) EXCEPT !.rsv = <<>>], a, o.n, TRUE))
                  /\ mem' = MemWrite(M, a, Order(T, Eval(o.e, T)))
     /\ cs' = [cs EXCEPT !.n = @ + 1, !.hit = IF hit THEN 1 ELSE @]
Spec == Init /\ [][Step]_vars

(* ------------------------------ verdicts ------------------------------------ *)
Same(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : y[i] = U \/ x[i] = y[i]      \* y: specified
CellNow == LET c == MemRead(mem, cs.at, W(cs.p)) IN IF Pr.be = 1 THEN Rev(c) ELSE c
OutNow == LET v == TLCEval([i \in 1..W(cs.p) |-> IF (OUTBUF + i - 1) \in DOMAIN T.pm THEN T.pm[OUTBUF + i - 1] ELSE U])
          IN IF Pr.be = 1 THEN Rev(v) ELSE v
HasOut == \E x \in OUTBUF..OUTBUF+15 : x \in DOMAIN T.pm
(* with uninitialised bytes involved, a compare-exchange may go either way      *)
(* where the bytes involved are uninitialised                                   *)
Maybe(m, a) == \A i \in 1..Len(m) : m[i] = U \/ a[i] = U \/ m[i] = a[i]
Sure(m, a)  == \A i \in 1..Len(m) : m[i] # U /\ m[i] = a[i]
Specified ==
  IF IsCas(cs.p) THEN
     (IF Maybe(cs.m, cs.a) THEN {Out(cs.b, TRUE, cs.m)} ELSE {})
     \cup (IF ~Sure(cs.m, cs.a) \/ Pr.op = "cw" THEN {Out(cs.m, FALSE, cs.m)} ELSE {})
  ELSE OpOuts(Pr.op, cs.m, cs.a, cs.b)
Ret == IF T.ret = <<>> THEN U ELSE T.ret[1]
Matches(o) == /\ Same(CellNow, o.mem) /\ (o.res = <<>> \/ Same(OutNow, o.res)) /\ Ret = (IF o.ok THEN 1 ELSE 0)
Neighbours == \A x \in DOMAIN mem : (x >= cs.at /\ x < cs.at + W(cs.p)) \/ mem[x] = (IF cs.hit = 1 /\ InNb(x) THEN Canary(x) ^^ 85 ELSE Canary(x))
(* bytes that may be touched: the aligned machine word(s) holding the cell      *)
Gran == IF Pr.gran > W(cs.p) THEN Pr.gran ELSE W(cs.p)
WordLo == cs.at - (cs.at % Gran)
InWord(S) == \A x \in S : x >= WordLo /\ x < WordLo + Gran
InCell(S) == \A x \in S : x >= cs.at /\ x < cs.at + W(cs.p)
Info == [p |-> Pr.name, m |-> cs.m, a |-> cs.a, b |-> cs.b, at |-> cs.at % 16, g |-> cs.g, al |-> cs.al, env |-> cs.env]
Bad(w) == PrintT("BAD " \o ToJson([w |-> w, i |-> Info]))
ReadOnlyLoad == Pr.op = "ld" /\ W(cs.p) <= Pr.ptr
Verdict ==
  /\ T.err \notin {"", "skip"} => Bad(T.err)
  /\ (T.err = "" /\ T.ret # <<>>) =>
       /\ (\E o \in Specified : Matches(o)) \/ Bad("value: cell " \o ToString(CellNow) \o " result " \o ToString(OutNow) \o " ok " \o ToString(Ret))
       /\ (Pr.op # "st" \/ ~HasOut) \/ Bad("value: a store wrote its result buffer")
  /\ Neighbours \/ Bad("neighbour: a byte outside the cell changed")
  /\ InWord(T.fr) \/ Bad("foot: reads outside the machine word of the cell")
  /\ InWord(T.fw) \/ Bad("foot: writes outside the machine word of the cell")
  /\ (ReadOnlyLoad => T.fw = {}) \/ Bad("foot: a load of at most pointer width writes memory")
  /\ cs.n < 60 \/ Bad("hang: does not finish without interference")
Stop == cs.n < 61
(* the ordering contract of the assembly blocks: an operation that is ordered   *)
(* must be opaque to the compiler                                               *)
TypeOK == cs.p \in 1..Len(Progs)
=============================================================================
