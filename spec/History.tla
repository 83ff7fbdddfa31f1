------------------------------- MODULE History -------------------------------
(***************************************************************************)
(* A history: the text, one line [key, val, time] per entry, and the index *)
(* (.dir and .pag), which says where in the text a key stands. Expiry      *)
(* writes a new text and a new index beside them, and then puts one after  *)
(* the other in place; whoever opens a history finishes what an            *)
(* interrupted expiry has left.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
(* which entries stay: those not older than the limit, in their order *)
Keep(txt, cut) == SelectSeq(txt, LAMBDA e : e.time >= cut)
(* .dir carries the version of the table in .pag; at: key -> line *)
IndexOfText(txt, v) ==
  [ver |-> v, at |-> [k \in {txt[i].key : i \in 1..Len(txt)} |-> CHOOSE i \in 1..Len(txt) : txt[i].key = k /\ \A j \in 1..(i - 1) : txt[j].key # k]]
(* the index is believed only where the text agrees *)
Found(f, k) ==
  /\ f.dir = f.pag.ver
  /\ k \in DOMAIN f.pag.at
  /\ f.pag.at[k] <= Len(f.txt)
  /\ f.txt[f.pag.at[k]].key = k
(* file map: txt dir pag, and the new ones with has-flags *)
NoNew == [ntxt |-> <<>>, ndir |-> 0, npag |-> [ver |-> 0, at |-> <<>>], htxt |-> FALSE, hdir |-> FALSE, hpag |-> FALSE]
Start(f) == [f EXCEPT !.ntxt = <<>>, !.htxt = TRUE]
Dir(f) == [f EXCEPT !.ndir = 0, !.hdir = TRUE]
Pag(f) == [f EXCEPT !.npag = [ver |-> 0, at |-> <<>>], !.hpag = TRUE]
Line(f, e) == [f EXCEPT !.ntxt = Append(@, e)]
Sync(f, v) == [f EXCEPT !.ndir = v, !.npag = IndexOfText(f.ntxt, v)]
MvTxt(f) == [f EXCEPT !.txt = f.ntxt, !.htxt = FALSE]
MvDir(f) == IF f.hdir THEN [f EXCEPT !.dir = f.ndir, !.hdir = FALSE] ELSE f
MvPag(f) == IF f.hpag THEN [f EXCEPT !.pag = f.npag, !.hpag = FALSE] ELSE f
Recover(f) == IF f.htxt THEN f ELSE MvPag(MvDir(f))
=============================================================================
