----------------------------- MODULE FetchUpdate -----------------------------
(* fetch_update(set, fetch, f): load, apply f, weak compare-exchange, retry.    *)
(* Steps of the implementation are separate actions so that other threads may   *)
(* write between any two of them (here: while f runs, which is where the replay *)
(* driver can inject writes deterministically; MaxRounds bounds them).          *)
EXTENDS AtomicCell, Integers, TLC, Json

CONSTANTS N, MaxRounds, Spurious   \* Spurious: may the weak form fail on equality?
VARIABLES mem, pc, prev, next, rounds, log, ret, installs
vars == <<mem, pc, prev, next, rounds, log, ret, installs>>

Val(k)  == [i \in 1..N |-> (k * 37 + i * 11) % 256]
Flip(v, i) == [v EXCEPT ![i] = (@ + 128) % 256]

Init == /\ mem \in {Val(1), [i \in 1..N |-> 0]}
        /\ pc = "load" /\ prev = <<>> /\ next = <<>> /\ rounds = 0 /\ log = <<>>
        /\ ret = <<>> /\ installs = <<>>

Load == /\ pc = "load"
        /\ prev' = LoadOut(mem).res /\ pc' = "apply"
        /\ UNCHANGED <<mem, next, rounds, log, ret, installs>>

(* writes performed by others while f runs, as a sequence of values             *)
Interference(p, nx, k) ==
  {<<>>, <<Val(10 + k)>>, <<Val(20 + k), p>>, <<Flip(p, 1 + (k % N))>>} \cup
  (IF nx # <<>> THEN {<<nx>>} ELSE {})
Apply ==
  /\ pc = "apply" /\ rounds < MaxRounds
  /\ \E ans \in {<<>>, Val(40 + rounds), prev} : \E w \in Interference(prev, ans, rounds) :
       /\ mem' = IF w = <<>> THEN mem ELSE w[Len(w)]
       /\ next' = ans
       /\ log' = Append(log, [arg |-> prev, some |-> ans # <<>>, next |-> ans, writes |-> w])
       /\ IF ans = <<>> THEN pc' = "done" /\ ret' = [ok |-> FALSE, val |-> prev]
                        ELSE pc' = "cas" /\ ret' = ret
  /\ rounds' = rounds + 1
  /\ UNCHANGED <<prev, installs>>
(* after the bound, f declines                                                  *)
ApplyLast ==
  /\ pc = "apply" /\ rounds = MaxRounds
  /\ log' = Append(log, [arg |-> prev, some |-> FALSE, next |-> <<>>, writes |-> <<>>])
  /\ pc' = "done" /\ ret' = [ok |-> FALSE, val |-> prev]
  /\ UNCHANGED <<mem, prev, next, rounds, installs>>

Cas == /\ pc = "cas"
       /\ \E out \in IF Spurious THEN WeakOuts(mem, prev, next) ELSE {CasOut(mem, prev, next)} :
            /\ mem' = out.mem
            /\ IF out.ok THEN /\ pc' = "done" /\ ret' = [ok |-> TRUE, val |-> out.res]
                              /\ installs' = Append(installs, [before |-> mem, after |-> next])
                              /\ UNCHANGED prev
                         ELSE /\ pc' = "apply" /\ prev' = out.res /\ UNCHANGED <<ret, installs>>
       /\ UNCHANGED <<next, rounds, log>>
Next == Load \/ Apply \/ ApplyLast \/ Cas
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------ properties ---------------------------------- *)
(* success: exactly one install, of f's answer for the very value replaced, and  *)
(* that value is returned; otherwise: nothing installed, declined value returned *)
ResultOK ==
  pc = "done" =>
    LET l == log[Len(log)] IN
    IF ret.ok THEN /\ Len(installs) = 1 /\ l.some
                   /\ installs[1].before = ret.val /\ l.arg = ret.val /\ installs[1].after = l.next
              ELSE installs = <<>> /\ ~l.some /\ l.arg = ret.val
(* f is never called again once it declined, and each retry sees a value that   *)
(* the cell held after the previous call                                        *)
FreshOK ==
  \A i \in 1..Len(log) :
    /\ i < Len(log) => log[i].some
    /\ i > 1 => log[i].arg = IF log[i-1].writes = <<>> THEN log[i-1].arg
                             ELSE log[i-1].writes[Len(log[i-1].writes)]
Terminates == <>(pc = "done")
Emit == pc' # "done" \/ PrintT("FU " \o ToJson([pre |-> IF Len(log) = 0 THEN mem ELSE log[1].arg, log |-> log', ok |-> ret'.ok, res |-> ret'.val, post |-> mem']))
=============================================================================
