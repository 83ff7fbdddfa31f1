-------------------------------- MODULE Addr --------------------------------
(***************************************************************************)
(* Address patterns <<zone, net, node, point>> of the routing, packing,    *)
(* rewrite and spy tables. A component is a number, Empty (not written) or *)
(* Wild ("*").                                                             *)
(***************************************************************************)
EXTENDS Util
Bit(n, b) == (n \div b) % 2 = 1
Empty == -1
Wildcard == <<Wild, Wild, Wild, Wild>>
Concrete(c) == c # Empty /\ c # Wild

(* missing leading components come from the preceding address of the line  *)
Complete(p, old) ==
  IF p[1] # Empty THEN p
  ELSE <<old[1],
         IF p[2] = Empty THEN old[2] ELSE p[2],
         IF p[2] = Empty /\ p[3] = Empty THEN old[3] ELSE p[3],
         p[4]>>
(* a whole line of addresses; old0 is what precedes the first one *)
RECURSIVE CompleteList(_, _)
CompleteList(ps, old) ==
  IF ps = <<>> THEN <<>>
  ELSE LET c == Complete(Head(ps), old) IN <<c>> \o CompleteList(Tail(ps), c)
Start(zone) == <<zone, Empty, Empty, Empty>>

PMatch(n, p) == \A i \in 1..4 : Concrete(p[i]) => n[i] = p[i]
PMatchAny(n, ps) == \E i \in 1..Len(ps) : PMatch(n, ps[i])
Subst(n, p) == [i \in 1..4 |-> IF Concrete(p[i]) THEN p[i] ELSE n[i]]
Zeroed(p) == [i \in 1..4 |-> IF Concrete(p[i]) THEN p[i] ELSE 0]
=============================================================================
