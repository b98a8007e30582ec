------------------------------ MODULE CommModel -----------------------------
(***************************************************************************)
(* mpi::CommThread: one queue of messages per pair of ranks, a thread that *)
(* takes the first message of any queue and dispatches it by its tag, the  *)
(* tags agreed upon by a maximum over the communicator, a barrier after    *)
(* the local registration, unregistration and exit by messages of the own  *)
(* rank that are received synchronously.  Every step must be allowed by    *)
(* CommThread.                                                             *)
(***************************************************************************)
EXTENDS CommThread
CONSTANTS NR, PROG, TAG0
\* PROG: per rank its operations: <<"start">>, <<"reg", j>>, <<"send", j, dest, v>>, <<"unreg", j>>, <<"stop">>
\* TAG0: first free tag per rank
Ranks == 0..NR-1
UNREG == 1000
EXIT == 1001
VARIABLES pc, st, next, rtab, chan, thr, deliv, coll, abs
vars == <<pc, st, next, rtab, chan, thr, deliv, coll, abs>>
\* rtab[r]: tag -> receiver; chan[src][dst]: queue of [tag, v]; thr[r]: off, on; deliv[r]: message being handled or << >>
\* coll: number of ranks that reached each collective step, as <<kind, j>> -> ranks
Init ==
  /\ pc = [r \in Ranks |-> 1] /\ st = [r \in Ranks |-> "go"] /\ next = TAG0 /\ rtab = [r \in Ranks |-> << >>]
  /\ chan = [a \in Ranks |-> [b \in Ranks |-> << >>]] /\ thr = [r \in Ranks |-> "off"] /\ deliv = [r \in Ranks |-> << >>]
  /\ coll = << >>
  /\ abs = [S0(NR, 4) EXCEPT !.mem = (<<0, 0>> :> [r \in Ranks |-> r]), !.col = [q \in Ranks \X {0} |-> 0]]
Must(S) == IF S = {} THEN Assert(FALSE, <<"not allowed by the specification", pc, st>>) ELSE abs' \in S
Op(r) == PROG[r][pc[r]]
At(r, o, s) == pc[r] <= Len(PROG[r]) /\ Op(r)[1] = o /\ st[r] = s
Adv(r) == pc' = [pc EXCEPT ![r] = @ + 1] /\ st' = [st EXCEPT ![r] = "go"]
Sub(r, s) == st' = [st EXCEPT ![r] = s] /\ UNCHANGED pc
Arrive(key, r) == coll' = With(coll, key, (IF key \in DOMAIN coll THEN coll[key] ELSE {}) \cup {r})
All(key) == key \in DOMAIN coll /\ coll[key] = Ranks
StartB(r) == At(r, "start", "go") /\ Arrive(<<"start", pc[r]>>, r) /\ Sub(r, "in") /\ Must(StartBegin(abs, r, 9, -1)) /\ UNCHANGED <<next, rtab, chan, thr, deliv>>
StartE(r) == At(r, "start", "in") /\ All(<<"start", pc[r]>>) /\ Adv(r) /\ thr' = [thr EXCEPT ![r] = "on"] /\ next' = [next EXCEPT ![r] = TAG0[r]]
             /\ Must(Start(abs, r, "ok")) /\ UNCHANGED <<rtab, chan, deliv, coll>>
RegB(r) == At(r, "reg", "go") /\ Arrive(<<"max", Op(r)[2]>>, r) /\ Sub(r, "max") /\ Must(RegBegin(abs, r, Op(r)[2], 0)) /\ UNCHANGED <<next, rtab, chan, thr, deliv>>
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the maximum is over what the ranks had when they called; a rank's value does not change while it is in the call
RegM(r) ==
  /\ At(r, "reg", "max") /\ All(<<"max", Op(r)[2]>>)
  /\ LET tags == {IF Registered(abs, q, Op(r)[2]) /\ <<q, "tag", Op(r)[2]>> \in DOMAIN coll THEN coll[<<q, "tag", Op(r)[2]>>] ELSE next[q] : q \in Ranks}
         tag == Max(tags) IN
     /\ next' = [next EXCEPT ![r] = tag + 1]
     /\ rtab' = [rtab EXCEPT ![r] = With(@, tag, Op(r)[2])]
     /\ coll' = With(With(coll, <<r, "tag", Op(r)[2]>>, next[r]), <<"bar", Op(r)[2]>>, (IF <<"bar", Op(r)[2]>> \in DOMAIN coll THEN coll[<<"bar", Op(r)[2]>>] ELSE {}) \cup {r})
  /\ Sub(r, "bar") /\ UNCHANGED <<chan, thr, deliv, abs>>
TagOf(r, j) == CHOOSE t \in DOMAIN rtab[r] : rtab[r][t] = j
RegE(r) == /\ At(r, "reg", "bar") /\ All(<<"bar", Op(r)[2]>>) /\ Adv(r)
           /\ Must(Reg(abs, r, Op(r)[2], 0, TagOf(r, Op(r)[2]), "ok")) /\ UNCHANGED <<next, rtab, chan, thr, deliv, coll>>
SendB(r) == At(r, "send", "go") /\ Sub(r, "in") /\ Must(SendBegin(abs, r, 0, Op(r)[2], Op(r)[3], Op(r)[4])) /\ UNCHANGED <<next, rtab, chan, thr, deliv, coll>>
SendM(r) == At(r, "send", "in") /\ Sub(r, "out") /\ chan' = [chan EXCEPT ![r][Op(r)[3]] = Append(@, [tag |-> TagOf(r, Op(r)[2]), v |-> Op(r)[4]])]
            /\ UNCHANGED <<next, rtab, thr, deliv, coll, abs>>
SendE(r) == At(r, "send", "out") /\ Adv(r) /\ Must(SendEnd(abs, r, 0, Op(r)[2], Op(r)[4])) /\ UNCHANGED <<next, rtab, chan, thr, deliv, coll>>
UnregB(r) == /\ At(r, "unreg", "go") /\ Sub(r, "in") /\ Must(UnregBegin(abs, r, Op(r)[2]))
             /\ chan' = [chan EXCEPT ![r][r] = Append(@, [tag |-> UNREG, v |-> TagOf(r, Op(r)[2])])] /\ UNCHANGED <<next, rtab, thr, deliv, coll>>
UnregE(r) == At(r, "unreg", "taken") /\ Adv(r) /\ Must(Unreg(abs, r, Op(r)[2])) /\ UNCHANGED <<next, rtab, chan, thr, deliv, coll>>
StopB(r) == /\ At(r, "stop", "go") /\ Sub(r, "in") /\ Must(StopBegin(abs, r))
            /\ chan' = [chan EXCEPT ![r][r] = Append(@, [tag |-> EXIT, v |-> 0])] /\ UNCHANGED <<next, rtab, thr, deliv, coll>>
StopE(r) == /\ At(r, "stop", "in") /\ thr[r] = "off" /\ Adv(r) /\ Must(Stop(abs, r)) /\ rtab' = [rtab EXCEPT ![r] = << >>]
            /\ chan' = [a \in Ranks |-> [chan[a] EXCEPT ![r] = << >>]]      \* the communicator is gone
            /\ UNCHANGED <<next, thr, deliv, coll>>
\* the thread
Take(r, q) ==
  /\ thr[r] = "on" /\ deliv[r] = << >> /\ chan[q][r] # << >>
  /\ LET m == Head(chan[q][r]) IN
     /\ chan' = [chan EXCEPT ![q][r] = Tail(@)]
     /\ IF m.tag = EXIT THEN thr' = [thr EXCEPT ![r] = "off"] /\ UNCHANGED <<rtab, deliv, abs, st>>
        ELSE IF m.tag = UNREG THEN /\ deliv' = [deliv EXCEPT ![r] = <<"unreg", m.v>>]      \* the send completes, then the receiver is removed
                                   /\ st' = [st EXCEPT ![r] = "taken"] /\ UNCHANGED <<rtab, thr, abs>>
        ELSE IF m.tag \in DOMAIN rtab[r] THEN deliv' = [deliv EXCEPT ![r] = <<"recv", rtab[r][m.tag]>>] /\ Must(Recv(abs, r, 77, rtab[r][m.tag], q, m.v, 1)) /\ UNCHANGED <<rtab, thr, st>>
        ELSE UNCHANGED <<rtab, thr, deliv, abs, st>>
  /\ UNCHANGED <<pc, next, coll>>
Finish(r) ==
  /\ deliv[r] # << >>
  /\ deliv' = [deliv EXCEPT ![r] = << >>]
  /\ IF deliv[r][1] = "unreg" THEN rtab' = [rtab EXCEPT ![r] = Without(@, deliv[r][2])] /\ UNCHANGED abs
     ELSE Must(Recvd(abs, r, deliv[r][2])) /\ UNCHANGED rtab
  /\ UNCHANGED <<pc, st, next, chan, thr, coll>>
Done == \A r \in Ranks : pc[r] > Len(PROG[r])
Next == (\E r \in Ranks : StartB(r) \/ StartE(r) \/ RegB(r) \/ RegM(r) \/ RegE(r) \/ SendB(r) \/ SendM(r) \/ SendE(r) \/ UnregB(r) \/ UnregE(r)
                          \/ StopB(r) \/ StopE(r) \/ Finish(r) \/ (\E q \in Ranks : Take(r, q))) \/ (Done /\ UNCHANGED vars)
Clean == Done => \A r \in Ranks : rtab[r] = << >> /\ thr[r] = "off"
P2 == (0 :> << <<"start">>, <<"reg", 1>>, <<"send", 1, 1, 5>>, <<"reg", 2>>, <<"send", 1, 1, 6>>, <<"send", 2, 0, 7>>, <<"unreg", 1>>, <<"unreg", 2>>, <<"stop">> >>
    @@ 1 :> << <<"start">>, <<"reg", 1>>, <<"send", 1, 1, 8>>, <<"reg", 2>>, <<"send", 2, 0, 9>>, <<"unreg", 2>>, <<"unreg", 1>>, <<"stop">> >>)
T2 == (0 :> 0 @@ 1 :> 3)
P3 == (0 :> << <<"start">>, <<"reg", 1>>, <<"send", 1, 1, 5>>, <<"send", 1, 2, 6>>, <<"unreg", 1>>, <<"stop">> >>
    @@ 1 :> << <<"start">>, <<"reg", 1>>, <<"send", 1, 2, 7>>, <<"send", 1, 1, 8>>, <<"unreg", 1>>, <<"stop">> >>
    @@ 2 :> << <<"start">>, <<"reg", 1>>, <<"send", 1, 1, 9>>, <<"unreg", 1>>, <<"stop">> >>)
T3 == (0 :> 0 @@ 1 :> 3 @@ 2 :> 1)
=============================================================================
