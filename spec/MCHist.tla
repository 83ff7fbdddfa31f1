-------------------------------- MODULE MCHist --------------------------------
(* tossers adding to a history and expiries of it, one at a time, any of them
   killed anywhere, over a few days *)
EXTENDS History, TLC
CONSTANTS MaxDay, MaxLen, Age
VARIABLES f, pc, day, i, mem, known, ver
vars == <<f, pc, day, i, mem, known, ver>>
Keys == {1, 2, 3}
None == [ver |-> 0, at |-> <<>>]
Init ==
  /\ f = [txt |-> <<>>, dir |-> 0, pag |-> [ver |-> 0, at |-> <<>>]] @@ NoNew
  /\ pc = "idle" /\ day = 1 /\ i = 0 /\ mem = None /\ known = {} /\ ver = 0
Cut == IF day > Age THEN day - Age ELSE 0
(* a tosser: opens, adds what it does not find, writes the index at the end;
   known: what it has answered for in runs that ended well, with the time *)
TOpen == pc = "idle" /\ f' = Recover(f) /\ mem' = f'.pag /\ pc' = "toss" /\ UNCHANGED <<day, i, known, ver>>
TAdd == /\ pc = "toss" /\ Len(f.txt) < MaxLen
        /\ \E k \in Keys :
             /\ ~Found([f EXCEPT !.pag = mem], k)
             /\ f' = [f EXCEPT !.txt = Append(@, [key |-> k, val |-> 0, time |-> day])]
             /\ mem' = [mem EXCEPT !.at = [x \in DOMAIN mem.at \cup {k} |-> IF x = k THEN Len(f'.txt) ELSE mem.at[x]]]
        /\ UNCHANGED <<pc, day, i, known, ver>>
TClose == /\ pc = "toss" /\ f' = [f EXCEPT !.pag = mem] /\ pc' = "idle"
          /\ known' = {x \in known : x[2] >= Cut} \cup {<<k, f.txt[mem.at[k]].time>> : k \in {k \in DOMAIN mem.at : Found(f', k)}}
          /\ UNCHANGED <<day, i, mem, ver>>
(* an expiry *)
Step(g, p) == f' = g /\ pc' = p
EStart == pc = "idle" /\ Step(Start(Recover(f)), "e1") /\ i' = 1 /\ UNCHANGED <<day, mem, known, ver>>
EDir == pc = "e1" /\ Step(Dir(f), "e2") /\ UNCHANGED <<day, i, mem, known, ver>>
EPag == pc = "e2" /\ Step(Pag(f), "e3") /\ UNCHANGED <<day, i, mem, known, ver>>
ELine == /\ pc = "e3" /\ i <= Len(f.txt) /\ i' = i + 1
         /\ f' = (IF f.txt[i].time >= Cut THEN Line(f, f.txt[i]) ELSE f)
         /\ UNCHANGED <<pc, day, mem, known, ver>>
ESync == pc = "e3" /\ i > Len(f.txt) /\ ver' = 1 - ver /\ Step(Sync(f, 2 + ver), "e4") /\ UNCHANGED <<day, i, mem, known>>
EMvTxt == pc = "e4" /\ Step(MvTxt(f), "e5") /\ UNCHANGED <<day, i, mem, known, ver>>
EMvDir == pc = "e5" /\ Step(MvDir(f), "e6") /\ UNCHANGED <<day, i, mem, known, ver>>
EMvPag == pc = "e6" /\ Step(MvPag(f), "idle") /\ UNCHANGED <<day, i, mem, known, ver>>
Crash == pc # "idle" /\ pc' = "idle" /\ UNCHANGED <<f, day, i, mem, known, ver>>
NextDay == pc = "idle" /\ day < MaxDay /\ day' = day + 1 /\ UNCHANGED <<f, pc, i, mem, known, ver>>
Next == TOpen \/ TAdd \/ TClose \/ EStart \/ EDir \/ EPag \/ ELine \/ ESync \/ EMvTxt \/ EMvDir \/ EMvPag \/ Crash \/ NextDay
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* nothing young that was known is forgotten by the next who opens it *)
Remembered == pc \in {"idle", "toss"} =>
  \A x \in known : x[2] >= Cut => Found(Recover(f), x[1])
(* no line of the text is lost young, none is there twice or out of order *)
InText == \A x \in known : x[2] >= Cut => \E n \in 1..Len(f.txt) : f.txt[n] = [key |-> x[1], val |-> 0, time |-> x[2]]
Sorted == \A a, b \in 1..Len(f.txt) : a < b => f.txt[a].time <= f.txt[b].time
(* after a complete expiry every line is found again *)
Whole == [][pc = "e6" /\ pc' = "idle" /\ i # 0 /\ f.hpag /\ ~f'.hpag => \A n \in 1..Len(f'.txt) : Found(f', f'.txt[n].key)]_vars
NoRecovery(g) == g
=============================================================================
