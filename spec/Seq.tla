-------------------------------- MODULE Seq ---------------------------------
(* A sequence counter as its users see it: a draw begins, and ends with a   *)
(* number, an error, or the death of its process.                           *)
(*   val   the last number given out (or what the file said at the start)   *)
(*   got   process -> "idle", "draw", or "dead"                             *)
(*   num   process -> the number taken for a draw under way, 0: none yet    *)
EXTENDS Naturals, FiniteSets
CONSTANT Procs
VARIABLES val, got, num
svars == <<val, got, num>>

Draw(p) == /\ got[p] = "idle"
           /\ got' = [got EXCEPT ![p] = "draw"] /\ num' = [num EXCEPT ![p] = 0] /\ UNCHANGED val
Take(p) == /\ got[p] = "draw" /\ num[p] = 0
           /\ val' = val + 1 /\ num' = [num EXCEPT ![p] = val + 1] /\ UNCHANGED got
Drew(p) == /\ got[p] = "draw" /\ num[p] # 0
           /\ got' = [got EXCEPT ![p] = "idle"] /\ UNCHANGED <<val, num>>
(* nothing was given out, though a number may be skipped                    *)
Failed(p) == /\ got[p] = "draw"
             /\ got' = [got EXCEPT ![p] = "idle"] /\ UNCHANGED <<val, num>>
Die(p) == got[p] # "dead" /\ got' = [got EXCEPT ![p] = "dead"] /\ UNCHANGED <<val, num>>
SNext == \E p \in Procs : Draw(p) \/ Take(p) \/ Drew(p) \/ Failed(p) \/ Die(p)
=============================================================================
