-------------------------------- MODULE MCIter --------------------------------
(* Implementation-shaped model of the archive iterator: a stream of gzip       *)
(* members (or one uncompressed text), the current record's limited stream,     *)
(* the line read ahead, and the extent computed at most once per record.  Every *)
(* sequence of next / read / extent calls is explored; it must refine "the k-th *)
(* call of next yields the k-th record, reads stay inside its block, extents    *)
(* are exact, and a member with several records ends in an error".              *)
(* Symbols: [t: "H" head / "B" block / "N" blank line / "J" junk, r: record].    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, FiniteSets
Depth == atoi(IOEnv.DEPTH)
Wide == IOEnv.WIDE = "1"

(* layouts: members, each a sequence of "r" (record with block of n symbols),    *)
(* "n" blanks                                                                     *)
X(n, s) == [b |-> n, s |-> s]          \* a record with block n and s blanks after
Layouts ==
  {<<<<X(2,2)>>, <<X(0,2)>>>>, <<<<X(1,0)>>, <<>>, <<X(2,1)>>>>, <<<<X(1,2), X(1,2)>>>>, <<<<X(0,1)>>, <<X(1,1), X(2,0)>>>>}
  \cup (IF Wide THEN {<<<<X(0,0)>>>>, <<<<>>, <<X(3,2)>>, <<X(1,2)>>, <<>>>>, <<<<X(1,1)>>, <<X(2,2)>>, <<X(0,2)>>>>, <<<<X(2,2), X(0,2), X(1,1)>>, <<X(1,1)>>>>} ELSE {})
Zips == {TRUE, FALSE}

VARIABLES lay, zip, s, k, got, bad, hist
vars == <<lay, zip, s, k, got, bad, hist>>

(* ---- the file *)
RECURSIVE CountTo(_, _)
CountTo(l, m) == IF m = 0 THEN 0 ELSE Len(l[m]) + CountTo(l, m - 1)
RecText(x, i) == <<[t |-> "H", r |-> i]>> \o [j \in 1..x.b |-> [t |-> "B", r |-> i]] \o [j \in 1..x.s |-> [t |-> "N", r |-> 0]]
RECURSIVE MemText(_, _, _)
MemText(mem, j, i0) == IF j > Len(mem) THEN <<>> ELSE RecText(mem[j], i0 + j) \o MemText(mem, j + 1, i0)
Mem(l, m) == MemText(l[m], 1, CountTo(l, m - 1))
RECURSIVE Flat(_, _)
Flat(l, m) == IF m > Len(l) THEN <<>> ELSE Mem(l, m) \o Flat(l, m + 1)
Texts == IF zip THEN [m \in 1..Len(lay) |-> Mem(lay, m)] ELSE <<Flat(lay, 1)>>
RECURSIVE Off(_)
Off(m) == IF m = 1 THEN 0 ELSE Off(m - 1) + Len(Texts[m - 1]) + (IF zip THEN 10 ELSE 0)
FileEnd(m) == Off(m + 1)
Total == CountTo(lay, Len(lay))
MemberOf(i) == CHOOSE m \in 1..Len(lay) : CountTo(lay, m - 1) < i /\ i <= CountTo(lay, m)
Rec(i) == LET m == MemberOf(i) IN lay[m][i - CountTo(lay, m - 1)]
(* the first record that follows another one in its member *)
FirstMulti == LET S == {i \in 2..Total : zip /\ MemberOf(i) = MemberOf(i - 1)} IN
              IF S = {} THEN Total + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
(* where record i starts and how long it is *)
StartOf(i) == IF zip THEN (IF i = 1 THEN 0 ELSE FileEnd(MemberOf(i - 1)))
              ELSE LET T == Texts[1] IN (CHOOSE p \in 1..Len(T) : T[p].t = "H" /\ T[p].r = i) - 1
SizeOf(i) == IF zip THEN FileEnd(MemberOf(i)) - StartOf(i) ELSE 1 + Rec(i).b

(* ---- the iterator *)
NoMI == <<-1, -1>>
S0 == [m |-> 1, p |-> 0, lim |-> 0, cur |-> 0, mi |-> NoMI, off |-> 0, nl |-> 0, inv |-> FALSE, fin |-> ""]
Cur(t) == Texts[t.m]
RECURSIVE Blanks(_, _)
Blanks(t, n) == IF t.p < Len(Cur(t)) /\ Cur(t)[t.p + 1].t = "N" THEN Blanks([t EXCEPT !.p = t.p + 1], n + 1) ELSE [t |-> t, n |-> n]
ReadToEnd(t0) ==
  IF t0.cur = 0 \/ t0.mi # NoMI THEN t0
  ELSE LET t1 == [t0 EXCEPT !.p = t0.p + t0.lim, !.lim = 0]
           b == Blanks(t1, 0)
           t2 == b.t
           more == t2.p < Len(Cur(t2))
           t3 == IF more THEN [t2 EXCEPT !.p = t2.p + 1, !.nl = Cur(t2)[t2.p + 1].r] ELSE [t2 EXCEPT !.nl = 0]
           tell == IF zip /\ t3.p = Len(Cur(t3)) THEN FileEnd(t3.m) ELSE Off(t3.m) + t3.p
           off == tell - (IF more THEN 1 ELSE 0)
       IN [t3 EXCEPT !.off = off, !.mi = <<t0.off, off - t0.off - (IF zip THEN 0 ELSE b.n)>>]
(* load a record: EOF -> cur stays, fin set by the caller *)
RECURSIVE Load(_)
Load(t) ==
  IF t.nl # 0 THEN
     IF t.inv THEN [t EXCEPT !.fin = "err"]
     ELSE [t EXCEPT !.cur = t.nl, !.lim = Rec(t.nl).b, !.mi = NoMI, !.nl = 0]
  ELSE LET b == Blanks(t, 0)
           u == IF zip THEN b.t ELSE [b.t EXCEPT !.off = t.off + b.n]
       IN IF u.p < Len(Cur(u)) THEN Load([u EXCEPT !.nl = Cur(u)[u.p + 1].r, !.p = u.p + 1])
          ELSE IF zip /\ u.m < Len(Texts) THEN Load([u EXCEPT !.m = u.m + 1, !.p = 0])
          ELSE [u EXCEPT !.fin = "stop"]
Step(t) ==
  IF t.fin # "" THEN [t EXCEPT !.fin = "stop"]
  ELSE IF t.cur = 0 THEN Load(t)
  ELSE LET u == ReadToEnd(t) IN
       IF zip /\ u.nl # 0 THEN Load([u EXCEPT !.inv = TRUE])
       ELSE IF zip /\ u.m < Len(Texts) THEN Load([u EXCEPT !.m = u.m + 1, !.p = 0])
       ELSE Load(u)

(* ---- the abstract meaning *)
(* without compression, records need a line end between them *)
Apart == zip \/ \A i \in 1..Total - 1 : Rec(i).s > 0
Init == lay \in Layouts /\ zip \in Zips /\ Apart /\ s = S0 /\ k = 0 /\ got = 0 /\ bad = "" /\ hist = <<>>
Rem(o) == hist' = Append(hist, o)
DoNext == LET t == Step(s) IN
  /\ s' = t
  /\ Rem([op |-> "next", n |-> 0])
  /\ got' = 0
  /\ IF t.fin = "" THEN k' = k + 1 /\ bad' = (IF t.cur = k + 1 THEN bad ELSE "wrong record")
     ELSE /\ k' = k
          /\ bad' = IF s.fin # "" THEN bad
                    ELSE IF t.fin = "stop" /\ (k # Total \/ FirstMulti <= Total) THEN "ended early"
                    ELSE IF t.fin = "err" /\ k # FirstMulti - 1 THEN "error misplaced" ELSE bad
DoRead(n) ==
  /\ s.cur # 0 /\ s.fin = ""
  /\ LET q == IF n < 0 \/ n > s.lim THEN s.lim ELSE n IN
     /\ s' = [s EXCEPT !.p = s.p + q, !.lim = s.lim - q]
     /\ got' = got + q
     /\ bad' = IF \E j \in 1..q : Cur(s)[s.p + j] # [t |-> "B", r |-> k] THEN "stray data"
               ELSE IF s.mi = NoMI /\ q = 0 /\ n # 0 /\ got # Rec(k).b THEN "short block" ELSE bad
  /\ Rem([op |-> "read", n |-> n])
  /\ UNCHANGED k
DoExtent ==
  /\ s.cur # 0 /\ s.fin = ""
  /\ LET t == ReadToEnd(s) IN
     /\ s' = t
     /\ bad' = IF FirstMulti <= Total THEN bad ELSE IF t.mi # <<StartOf(k), SizeOf(k)>> THEN "wrong extent" ELSE bad
  /\ Rem([op |-> "extent", n |-> 0])
  /\ UNCHANGED <<k, got>>
Next == /\ Len(hist) < Depth /\ UNCHANGED <<lay, zip>>
        /\ (DoNext \/ \E n \in {1, -1} : DoRead(n) \/ DoExtent)
Sound == bad = ""
InBlock == s.fin = "" /\ s.cur # 0 => s.lim >= 0 /\ s.lim <= Rec(s.cur).b
Emit == Len(hist) = Depth => PrintT("SCN " \o ToJson([lay |-> lay, zip |-> zip, ops |-> hist]))
=============================================================================
