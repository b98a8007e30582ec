------------------------------ MODULE SyncModel -----------------------------
(***************************************************************************)
(* threads::Sync at the grain of its monitor: a mutex and three condition  *)
(* variables with spurious wake-ups, all threads in a number of rounds.    *)
(* Every step must be a step of the abstract rendezvous; a lost wake-up    *)
(* would show as a deadlock.                                               *)
(***************************************************************************)
EXTENDS Sync
CONSTANTS N, ROUNDS, LATE, SPURIOUS     \* LATE: threads with the last flag
T == 1..N
VARIABLES synced, nlast, finishing, pc, left, woken, spur, abs, seen
vars == <<synced, nlast, finishing, pc, left, woken, spur, abs, seen>>
\* pc: idle, lock (wants the mutex to start), wF/wC/wL (waits on the condition), done
Init == /\ synced = 0 /\ nlast = 0 /\ finishing = FALSE /\ pc = [t \in T |-> "idle"] /\ left = [t \in T |-> ROUNDS]
        /\ woken = {} /\ spur = SPURIOUS /\ abs = Obj0 /\ seen = [t \in T |-> 0]
Wake(w, c, tobe) == w \cup {u \in T : tobe[u] = c}
Round(t) == ROUNDS - left[t]
\* what a thread does from the end of the wait on `finishing` on: may end in wL or leave
\* (synced, nlast, finishing already include it); returns through the primed variables
Leaving(t, sy, nl, fin, p, w, o) ==
  IF t \in LATE /\ sy > nl
  THEN /\ pc' = [p EXCEPT ![t] = "wL"] /\ woken' = w \ {t} /\ synced' = sy /\ nlast' = nl /\ finishing' = fin /\ abs' = o /\ UNCHANGED seen
  ELSE LET sy2 == sy - 1  nl2 == IF t \in LATE THEN nl - 1 ELSE nl IN
       /\ Assert(MayLeave(o, t), "leaves too early")
       /\ Assert(o.val = Round(t), "value of another round")
       /\ abs' = Leave(o, t) /\ seen' = [seen EXCEPT ![t] = o.val]
       /\ synced' = sy2 /\ nlast' = nl2
       /\ finishing' = (IF sy2 = 0 THEN FALSE ELSE fin)
       /\ LET w1 == IF sy2 = nl2 /\ t \notin LATE THEN Wake(w, "wL", p) ELSE w
              w2 == IF sy2 = 0 THEN Wake(w1, "wF", p) ELSE w1 IN woken' = w2 \ {t}
       /\ pc' = [p EXCEPT ![t] = "idle"]
Entering(t) ==     \* mutex held, not finishing
  LET sy == synced + 1  nl == IF t \in LATE THEN nlast + 1 ELSE nlast
      o == Enter(abs, t, N, t = (Round(t) % N) + 1, Round(t), t \in LATE) IN
  /\ Assert(MayEnter(abs), "enters during the previous round")
  /\ IF sy = N THEN Leaving(t, sy, nl, TRUE, pc, Wake(woken, "wC", pc), o)
     ELSE /\ pc' = [pc EXCEPT ![t] = "wC"] /\ woken' = woken \ {t} /\ synced' = sy /\ nlast' = nl /\ UNCHANGED <<finishing, seen>> /\ abs' = o
Start(t) ==
  /\ pc[t] = "idle" /\ left[t] > 0
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ pc' = [pc EXCEPT ![t] = "lock"]
  /\ UNCHANGED <<synced, nlast, finishing, woken, spur, abs, seen>>
Lock(t) ==
  /\ (pc[t] = "lock" \/ (pc[t] = "wF" /\ t \in woken))
  /\ IF finishing THEN pc' = [pc EXCEPT ![t] = "wF"] /\ woken' = woken \ {t} /\ UNCHANGED <<synced, nlast, finishing, abs, seen>> ELSE Entering(t)
  /\ UNCHANGED <<left, spur>>
WakeC(t) ==
  /\ pc[t] = "wC" /\ t \in woken
  /\ IF ~finishing THEN woken' = woken \ {t} /\ UNCHANGED <<synced, nlast, finishing, pc, abs, seen>>
     ELSE Leaving(t, synced, nlast, finishing, pc, woken, abs)
  /\ UNCHANGED <<left, spur>>
WakeL(t) ==
  /\ pc[t] = "wL" /\ t \in woken
  /\ Leaving(t, synced, nlast, finishing, pc, woken, abs)
  /\ UNCHANGED <<left, spur>>
Spur(t) == /\ spur > 0 /\ pc[t] \in {"wF", "wC", "wL"} /\ t \notin woken /\ woken' = woken \cup {t} /\ spur' = spur - 1
           /\ UNCHANGED <<synced, nlast, finishing, pc, left, abs, seen>>
Done == \A t \in T : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in T : Start(t) \/ Lock(t) \/ WakeC(t) \/ WakeL(t) \/ Spur(t)) \/ (Done /\ UNCHANGED vars)
\* nobody is more than one round ahead
Together == \A t, u \in T : left[t] - left[u] <= 1 \/ (pc[u] # "idle" /\ left[t] - left[u] <= 2)
Counts == synced = Cardinality(abs.in) + Cardinality(abs.out) /\ finishing = (abs.out # {})
=============================================================================
