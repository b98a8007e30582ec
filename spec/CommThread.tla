----------------------------- MODULE CommThread -----------------------------
(***************************************************************************)
(* The communication threads: per process a thread that hands each message *)
(* to the receiver registered for its tag.                                 *)
(*   s.run[r]   off | starting | on | stopping      s.th[r] its thread     *)
(*   s.mem      <<k, c>> -> (world rank -> rank in that communicator)      *)
(*   s.reg      <<r, j>> -> registration of receiver j on rank r           *)
(*   s.msg      messages sent and not delivered: [id, src, dst, j, v,      *)
(*              done (send returned), own (receivers' unregistration may   *)
(*              overtake it), after (messages that must come first)]       *)
(* A registration: k, c its communicator, tag (-1 before it is known),     *)
(* st: reg | on | unreg.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
S0(R, cpus) == [R |-> R, cpus |-> cpus, run |-> [r \in 0..R-1 |-> "off"], th |-> [r \in 0..R-1 |-> -1], cpu |-> [r \in 0..R-1 |-> 0], with |-> [r \in 0..R-1 |-> -1],
                others |-> [r \in 0..R-1 |-> FALSE], pins |-> [r \in 0..R-1 |-> << >>], mem |-> << >>, col |-> << >>, reg |-> << >>,
                msg |-> {}, next |-> 1, busy |-> [r \in 0..R-1 |-> -1], regs |-> << >>]
\* ---------------------------------------------------------------- communicators
\* col: <<r, k>> -> color; a communicator is <<k, color>>
Join(s, r, k, c, rank, size) ==
  {[s EXCEPT !.col = With(@, <<r, k>>, c), !.mem = With(@, <<k, c>>, With(IF <<k, c>> \in DOMAIN @ THEN @[<<k, c>>] ELSE << >>, r, rank))]}
Members(s, r, k) == IF k < 0 THEN 0..s.R-1 ELSE DOMAIN s.mem[<<k, s.col[<<r, k>>]>>]
RankIn(s, r, k, q) == s.mem[<<k, s.col[<<r, k>>]>>][q]
WorldOf(s, r, k, x) == CHOOSE q \in Members(s, r, k) : RankIn(s, r, k, q) = x
\* ---------------------------------------------------------------- start and stop
\* starting is collective: it fails everywhere if a thread runs on any of the ranks
StartBegin(s, r, cpu, k) ==
  {[s EXCEPT !.run[r] = IF @ = "off" THEN "starting" ELSE @, !.cpu[r] = cpu, !.pins[r] = << >>, !.with[r] = k,
             !.others[r] = (s.run[r] = "on") \/ \E q \in Members(s, r, k) \ {r} : s.run[q] = "on"]}
Pin(s, r, t, cpu, n) == {[s EXCEPT !.pins[r] = Append(@, <<t, cpu, n>>)]}
Valid(s, cpu) == cpu \in -s.cpus .. s.cpus - 1
Wanted(s, cpu) == IF cpu >= 0 THEN cpu ELSE s.cpus + cpu
PinOk(s, r) ==
  IF Valid(s, s.cpu[r]) THEN Len(s.pins[r]) = 1 /\ s.pins[r][1][2] = Wanted(s, s.cpu[r]) /\ s.pins[r][1][3] = 1
  ELSE s.pins[r] = << >>
\* (the members that start together may return at different times: a rank that is on because of the
\*  same start does not count as running before)
Start(s, r, code) ==
  IF s.run[r] = "starting" THEN
    IF code = "ok" THEN IF ~s.others[r] /\ PinOk(s, r) THEN {[s EXCEPT !.run[r] = "on", !.th[r] = IF s.pins[r] = << >> THEN -1 ELSE s.pins[r][1][1]]} ELSE {}
    ELSE IF code = "already" /\ s.others[r] /\ s.pins[r] = << >> THEN {[s EXCEPT !.run[r] = "off"]} ELSE {}
  ELSE IF code = "already" /\ s.run[r] = "on" /\ s.pins[r] = << >> THEN {s} ELSE {}
Mine(s, r) == {m \in s.msg : m.src = r /\ m.dst = r}
StopBegin(s, r) == {[s EXCEPT !.run[r] = "stopping", !.msg = {IF m \in Mine(s, r) /\ m.done THEN [m EXCEPT !.must = TRUE] ELSE m : m \in @}]}
Stop(s, r) ==
  IF s.run[r] = "stopping" /\ (\A m \in Mine(s, r) : ~m.must) /\ s.busy[r] = -1
  THEN {[s EXCEPT !.run[r] = "off", !.th[r] = -1, !.msg = {m \in @ : m.dst # r}, !.reg = [q \in {x \in DOMAIN @ : x[1] # r} |-> @[q]]]} ELSE {}
\* ---------------------------------------------------------------- receivers
RegBegin(s, r, j, k) == {[s EXCEPT !.reg = With(@, <<r, j>>, [k |-> k, tag |-> -1, st |-> "reg"])]}
Registered(s, r, j) == <<r, j>> \in DOMAIN s.reg
Reg(s, r, j, k, tag, code) ==
  IF ~Registered(s, r, j) THEN {}
  ELSE IF code = "notinit" THEN IF s.run[r] # "on" THEN {[s EXCEPT !.reg = Without(@, <<r, j>>)]} ELSE {}
  ELSE IF /\ code = "ok" /\ s.run[r] = "on" /\ tag >= 0
          \* the same tag on all ranks of the communicator
          /\ \A q \in Members(s, r, k) : <<q, j>> \in DOMAIN s.regs => s.regs[<<q, j>>] \in {tag}
          \* all of them have asked
          /\ \A q \in Members(s, r, k) : <<q, j>> \in DOMAIN s.reg \/ <<q, j>> \in DOMAIN s.regs
          \* no other receiver of this rank has it
          /\ \A i \in {x[2] : x \in {y \in DOMAIN s.reg : y[1] = r}} \ {j} : s.reg[<<r, i>>].tag # tag
       THEN {[s EXCEPT !.reg[<<r, j>>] = [@ EXCEPT !.tag = tag, !.st = "on"], !.regs = With(@, <<r, j>>, tag)]} ELSE {}
UnregBegin(s, r, j) == {[s EXCEPT !.reg[<<r, j>>].st = "unreg", !.msg = {IF m \in Mine(s, r) /\ m.j = j /\ m.done THEN [m EXCEPT !.must = TRUE] ELSE m : m \in @}]}
Unreg(s, r, j) ==
  IF (\A m \in Mine(s, r) : m.j = j => ~m.must) /\ s.busy[r] # j
  THEN {[s EXCEPT !.reg = Without(@, <<r, j>>), !.msg = {m \in @ : ~(m.dst = r /\ m.j = j)}]} ELSE {}
\* ---------------------------------------------------------------- messages
KOf(s, r, j) == s.reg[<<r, j>>].k
SendBegin(s, r, t, j, dest, v) ==
  IF ~Registered(s, r, j) THEN {}
  ELSE LET d == WorldOf(s, r, KOf(s, r, j), dest) IN
    {[s EXCEPT !.next = @ + 1,
        !.msg = @ \cup {[id |-> s.next, src |-> r, th |-> t, dst |-> d, j |-> j, v |-> v, done |-> FALSE, must |-> FALSE,
                         \* messages between the same ranks arrive in the order in which they were sent
                         after |-> {m.id : m \in {x \in @ : x.src = r /\ x.dst = d /\ x.done}}]}]}
SendEnd(s, r, t, j, v) == {[s EXCEPT !.msg = {IF m.src = r /\ m.th = t /\ m.j = j /\ m.v = v /\ ~m.done THEN [m EXCEPT !.done = TRUE] ELSE m : m \in @}]}
Ids(s) == {m.id : m \in s.msg}
\* a message reaches its receiver; th: the thread that delivers it
Recv(s, r, th, j, from, v, alive) ==
  IF ~Registered(s, r, j) \/ s.run[r] \notin {"on", "stopping"} \/ s.busy[r] # -1 \/ alive # 1 THEN {}
  ELSE IF s.th[r] # -1 /\ s.th[r] # th THEN {}
  ELSE LET k == KOf(s, r, j) IN
    {[s EXCEPT !.msg = @ \ {m}, !.busy[r] = j, !.th[r] = th] :
       m \in {x \in s.msg : x.dst = r /\ x.j = j /\ x.v = v /\ RankIn(s, r, k, x.src) = from /\ x.after \cap Ids(s) = {}}}
Recvd(s, r, j) == IF s.busy[r] = j THEN {[s EXCEPT !.busy[r] = -1]} ELSE {}
\* nothing is left: all messages to receivers that are still there were delivered
Quiet(s) == s.msg = {} /\ \A r \in 0..s.R-1 : s.busy[r] = -1 /\ s.run[r] # "stopping"
=============================================================================
