------------------------------ MODULE Handles -------------------------------
(***************************************************************************)
(* The handles the Fortran interface identifies grids by: a map tab from   *)
(* the handles in use to the grids.  Each operation returns the set of     *)
(* possible <<new map, result>> pairs.                                     *)
(***************************************************************************)
EXTENDS Integers, TLC
Add(tab, o, v) == IF v >= 0 /\ v \notin DOMAIN tab THEN {(v :> o) @@ tab} ELSE {}
Get(tab, h, v) == IF h \in DOMAIN tab /\ tab[h] = v THEN {tab} ELSE {}
Del(tab, h) == IF h \in DOMAIN tab THEN {[x \in DOMAIN tab \ {h} |-> tab[x]]} ELSE {}
Op(tab, op, o, v) == CASE op = "add" -> Add(tab, o, v) [] op = "get" -> Get(tab, o, v) [] op = "del" -> Del(tab, o)
=============================================================================
