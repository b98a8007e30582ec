----------------------------- MODULE CacheExcl ------------------------------
(***************************************************************************)
(* The cache manager's locking at the grain of its lock operations: a lock *)
(* for the whole cache and one per slot, `get` waiting for the slot while  *)
(* it holds the cache lock, `tryGet` never waiting.  Every execution must  *)
(* refine Cache: get and try take effect when the slot's lock is taken.    *)
(***************************************************************************)
EXTENDS Cache
CONSTANTS THREADS, N, B, SPREAD, OPS
VARIABLES c, cm, bm, mem, pc, op, blk, idx, old, left, abs
\* cm: holder of the cache lock or 0; bm[k]: holder of slot k's lock or 0; abs: the abstract state (Cache)
vars == <<c, cm, bm, mem, pc, op, blk, idx, old, left, abs>>
Init ==
  /\ c = NewCache(N, SPREAD) /\ cm = 0 /\ bm = [k \in 0..N-1 |-> 0] /\ mem = [k \in 0..N-1 |-> -1]
  /\ pc = [t \in THREADS |-> "idle"] /\ op = [t \in THREADS |-> "get"] /\ blk = [t \in THREADS |-> 0]
  /\ idx = [t \in THREADS |-> -1] /\ old = [t \in THREADS |-> -2] /\ left = [t \in THREADS |-> OPS]
  /\ abs = S0(N, SPREAD)
Must(S) == IF S = {} THEN Assert(FALSE, "not allowed by the abstract cache") ELSE abs' \in S
Same == UNCHANGED abs
Call(t, o, b) ==
  /\ pc[t] = "idle" /\ left[t] > 0
  /\ pc' = [pc EXCEPT ![t] = "cm"] /\ op' = [op EXCEPT ![t] = o] /\ blk' = [blk EXCEPT ![t] = b]
  /\ left' = [left EXCEPT ![t] = @ - 1]
  /\ Must(Begin(abs, t, o, b))
  /\ UNCHANGED <<c, cm, bm, mem, idx, old>>
GetCm(t) ==
  /\ pc[t] = "cm" /\ op[t] = "get" /\ cm = 0
  /\ cm' = t /\ pc' = [pc EXCEPT ![t] = "bm"]
  /\ IF Holds(c, blk[t]) THEN c' = Touch(c, blk[t]) /\ idx' = [idx EXCEPT ![t] = SlotOf(c, blk[t])] /\ old' = [old EXCEPT ![t] = blk[t]]
     ELSE LET r == Insert(c, blk[t]) IN c' = r.c /\ idx' = [idx EXCEPT ![t] = r.slot] /\ old' = [old EXCEPT ![t] = r.old]
  /\ Same /\ UNCHANGED <<bm, mem, op, blk, left>>
GetBm(t) ==
  /\ pc[t] = "bm" /\ op[t] = "get" /\ bm[idx[t]] = 0
  /\ bm' = [bm EXCEPT ![idx[t]] = t] /\ pc' = [pc EXCEPT ![t] = "ucm"]
  /\ Must(LinGet(abs, t))
  /\ UNCHANGED <<c, cm, mem, op, blk, idx, old, left>>
UnlockCm(t) ==
  /\ pc[t] = "ucm" /\ cm' = 0 /\ pc' = [pc EXCEPT ![t] = "ret"]
  /\ Same /\ UNCHANGED <<c, bm, mem, op, blk, idx, old, left>>
Ret(t) ==
  /\ pc[t] = "ret" /\ op[t] = "get"
  /\ Must(Got(abs, t, blk[t], old[t], idx[t], idx[t]))
  /\ pc' = [pc EXCEPT ![t] = "use"]
  /\ UNCHANGED <<c, cm, bm, mem, op, blk, idx, old, left>>
Use(t) ==     \* the content seen, then filled if new
  /\ pc[t] = "use"
  /\ Assert(op[t] = "get" => Mem(abs, t, mem[idx[t]]) # {} , "content")
  /\ Assert(op[t] = "try" \/ old[t] = blk[t] => mem[idx[t]] = blk[t], "found but not filled")
  /\ pc' = [pc EXCEPT ![t] = "rel"]
  /\ IF op[t] = "get" /\ old[t] # blk[t]
     THEN mem' = [mem EXCEPT ![idx[t]] = blk[t]] /\ Must(Fill(abs, t, blk[t]))
     ELSE UNCHANGED mem /\ Same
  /\ UNCHANGED <<c, cm, bm, op, blk, idx, old, left>>
Unlock(t) ==
  /\ pc[t] = "rel" /\ bm' = [bm EXCEPT ![idx[t]] = 0] /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ Must(UNION {Reld(x, t) : x \in Rel(abs, t, idx[t])})
  /\ idx' = [idx EXCEPT ![t] = -1] /\ old' = [old EXCEPT ![t] = -2]
  /\ UNCHANGED <<c, cm, mem, op, blk, left>>
FailTry(t) == pc' = [pc EXCEPT ![t] = "idle"] /\ Must(Tried(abs, t, blk[t], 0, -1, -1))
TryCm(t) ==
  /\ pc[t] = "cm" /\ op[t] = "try"
  /\ IF cm # 0 THEN FailTry(t) /\ UNCHANGED cm ELSE cm' = t /\ pc' = [pc EXCEPT ![t] = "bm"] /\ Same
  /\ UNCHANGED <<c, bm, mem, op, blk, idx, old, left>>
TryBm(t) ==
  /\ pc[t] = "bm" /\ op[t] = "try"
  /\ IF ~Holds(c, blk[t]) \/ bm[SlotOf(c, blk[t])] # 0
     THEN cm' = 0 /\ FailTry(t) /\ UNCHANGED <<bm, idx>>
     ELSE /\ LET k == SlotOf(c, blk[t]) IN bm' = [bm EXCEPT ![k] = t] /\ idx' = [idx EXCEPT ![t] = k] /\ Must(LinTry(abs, t))
          /\ pc' = [pc EXCEPT ![t] = "ucm2"] /\ UNCHANGED cm
  /\ UNCHANGED <<c, mem, op, blk, old, left>>
TryUcm(t) ==
  /\ pc[t] = "ucm2" /\ cm' = 0 /\ pc' = [pc EXCEPT ![t] = "use"]
  /\ Must(Tried(abs, t, blk[t], 1, idx[t], idx[t]))
  /\ UNCHANGED <<c, bm, mem, op, blk, idx, old, left>>
Next == \E t \in THREADS :
  \/ \E o \in {"get", "try"}, b \in 1..B : Call(t, o, b)
  \/ GetCm(t) \/ GetBm(t) \/ UnlockCm(t) \/ Ret(t) \/ Use(t) \/ Unlock(t) \/ TryCm(t) \/ TryBm(t) \/ TryUcm(t)
Done == \A t \in THREADS : pc[t] = "idle" /\ left[t] = 0
Terminating == Done /\ UNCHANGED vars
NextT == Next \/ Terminating
Fair == \A t \in THREADS : WF_vars(GetCm(t) \/ GetBm(t) \/ UnlockCm(t) \/ Ret(t) \/ Use(t) \/ Unlock(t) \/ TryCm(t) \/ TryBm(t) \/ TryUcm(t))
Exclusive == \A k \in 0..N-1 : Cardinality({t \in THREADS : pc[t] \in {"ucm", "ret", "use", "rel", "ucm2"} /\ idx[t] = k}) <= 1
Agree == mem = abs.mem /\ \A k \in 0..N-1 : (k \in DOMAIN abs.held) <=> bm[k] # 0
=============================================================================
