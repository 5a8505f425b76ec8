------------------------------- MODULE MCLimit -------------------------------
(* The limited stream as it is implemented (a remaining and an original limit *)
(* over a source), with limits added at any time, refines Stream over the     *)
(* first bytes of the source.  All short behaviours are printed for replay.   *)
EXTENDS Stream, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Raws == {<<97, 98, 10, 99, 100, 101>>, <<10, 10, 97>>, <<>>}
Lims == {-1, 0, 2, 3, 9}
Ns == {-1, 0, 1, 2, 8}
VARIABLES raw, sp, lim, orig, cap, pos, ok, hist
(* lim = -1: no limiting wrapper yet; cap: abstract limit (-1 none) on bytes  *)
vars == <<raw, sp, lim, orig, cap, pos, ok, hist>>
Init == raw \in Raws /\ sp = 0 /\ lim = -1 /\ orig = 0 /\ cap = -1 /\ pos = 0 /\ ok = TRUE /\ hist = <<>>
Hist(op, n) == hist' = Append(hist, [op |-> op, n |-> n])
Wrap == \E n \in Lims :
  /\ Hist("wrap", n)
  /\ IF n < 0 THEN UNCHANGED <<raw, sp, lim, orig, cap, pos, ok>>
     ELSE /\ IF lim < 0 THEN lim' = n /\ orig' = n
             ELSE IF n < lim THEN orig' = orig - (lim - n) /\ lim' = n
             ELSE UNCHANGED <<lim, orig>>
          /\ cap' = IF cap < 0 THEN pos + n ELSE Min2(cap, pos + n)
          /\ UNCHANGED <<raw, sp, pos, ok>>
P == IF cap < 0 THEN raw ELSE Take(raw, cap)
Get(op, n) ==
  LET k == IF lim < 0 THEN n ELSE IF n < 0 THEN lim ELSE Min2(n, lim)
      out == IF lim >= 0 /\ k = 0 THEN <<>>
             ELSE IF op = "read" THEN ReadAt(raw, sp, k) ELSE IF k = 0 THEN <<>> ELSE LineAt(raw, sp, k)
      want == IF op = "read" THEN ReadAt(P, pos, n) ELSE IF n = 0 THEN <<>> ELSE LineAt(P, pos, n)
  IN /\ Hist(op, n)
     /\ sp' = sp + Len(out) /\ lim' = (IF lim < 0 THEN lim ELSE lim - Len(out))
     /\ pos' = pos + Len(want) /\ ok' = (out = want)
     /\ UNCHANGED <<raw, orig, cap>>
Next == Len(hist) < Depth /\ (Wrap \/ \E op \in {"read", "readline"}, n \in Ns : Get(op, n))
Refines == ok
Bounded == cap >= 0 => sp <= Max2(cap, 0)
Consumed == sp = pos
Emit == Len(hist) = Depth => PrintT("SCN " \o ToJson([raw |-> raw, ops |-> hist]))
=============================================================================
