------------------------------ MODULE LockUse ------------------------------
(* Which lock a program must hold while it works on something shared.       *)
(*                                                                          *)
(* Things shared: the tables of areas and of file areas, the histories and, *)
(* for programs told to lock (-l, or those that always do), the spool       *)
(* directories they work on.  The discipline: take the lock, read, change,  *)
(* release; a change is made only on the strength of what was read since    *)
(* the lock was taken; nobody removes the lock of another.                  *)
EXTENDS Naturals, FiniteSets

CONSTANTS Procs, Things          \* every thing has a lock of its own
VARIABLES owner,                 \* thing -> process holding its lock, 0: free, -1: a stranger
          fresh,                 \* process -> things read since their lock was taken
          waits                  \* processes having met the lock of another
lvars == <<owner, fresh, waits>>
None == 0
Stranger == 99

Init0(o) == owner = o /\ fresh = [p \in Procs |-> {}] /\ waits = {}
Take(p, x) == owner[x] = None /\ owner' = [owner EXCEPT ![x] = p] /\ fresh' = [fresh EXCEPT ![p] = @ \ {x}] /\ waits' = waits \ {p}
Drop(p, x) == owner[x] = p /\ owner' = [owner EXCEPT ![x] = None] /\ fresh' = [fresh EXCEPT ![p] = @ \ {x}] /\ UNCHANGED waits
(* anybody may look at a table, but that is no basis for changing it        *)
Read(p, x) == fresh' = (IF owner[x] = p THEN [fresh EXCEPT ![p] = @ \cup {x}] ELSE fresh) /\ UNCHANGED <<owner, waits>>
Write(p, x) == owner[x] = p /\ x \in fresh[p] /\ UNCHANGED lvars
(* things nobody may even look into without the lock                        *)
Use(p, x) == owner[x] = p /\ UNCHANGED lvars
(* a lock found taken                                                       *)
Meet(p, x) == owner[x] \notin {None, p} /\ waits' = waits \cup {p} /\ UNCHANGED <<owner, fresh>>
Gone(p) == \A x \in Things : owner[x] # p
=============================================================================
