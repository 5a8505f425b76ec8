------------------------------- MODULE MCDigest -------------------------------
(* Implementation-shaped model of the digest checking stream: digests are fed     *)
(* incrementally with what is read, the block digest from the start, the payload  *)
(* digest from the start of the payload, and judged when the limit is reached.    *)
(* For every kind of record, every state of the two digest headers and every      *)
(* sequence of reads, the verdict must be the one that Digest.tla defines over    *)
(* the whole record.  Hash values are symbolic: the number of bytes seen.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Wide == IOEnv.WIDE = "1"
Heads == IF Wide THEN 0..2 ELSE {0, 2}          \* bytes of HTTP headers (0: not an HTTP record)
Sizes == IF Wide THEN 0..4 ELSE {0, 1, 3}       \* bytes of content
Digs == {"absent", "good", "bad", "unknown"}
Kinds == {"plain", "segment", "revisit"}
Reads == {1, 2, -1}

VARIABLES cf, m, hist
vars == <<cf, m, hist>>
Limit(c) == c.h + c.p
Cfg == {c \in [h : Heads, p : Sizes, bd : Digs, pd : Digs, kind : Kinds, norec : BOOLEAN, mode : {"on", "raise"}] :
          /\ (c.kind = "revisit" => c.bd # "absent")
          /\ (c.norec => c.h > 0 /\ c.mode = "on")}

(* ---- what the verdict must be (Digest!VerdictOf) *)
HasB == cf.kind # "revisit" /\ cf.bd # "absent"
HasP == cf.kind = "plain" /\ cf.pd # "absent" /\ (~cf.norec \/ cf.pd = "unknown")
Fails == (IF HasB /\ cf.bd # "good" THEN 1 ELSE 0) + (IF HasP /\ cf.pd # "good" THEN 1 ELSE 0)
Want == IF Fails > 0 THEN "fail" ELSE IF HasB \/ HasP THEN "pass" ELSE "none"

(* ---- the machine *)
BObj(c) == c.kind # "revisit" /\ c.bd \in {"good", "bad"}
PObj(c) == c.kind = "plain" /\ c.pd \in {"good", "bad"}
Problem(s) == [s EXCEPT !.passed = "fail", !.n = s.n + 1]
Good(s) == IF s.passed = "fail" THEN s ELSE [s EXCEPT !.passed = "pass"]
CheckBlock(c, s) == IF ~BObj(c) THEN s ELSE IF c.bd = "good" /\ s.hb = Limit(c) THEN Good(s) ELSE Problem(s)
CheckPay(c, s) == IF ~s.started \/ ~PObj(c) THEN s ELSE IF c.pd = "good" /\ s.hp = c.p THEN Good(s) ELSE Problem(s)
Feed(c, s, n) ==       \* n bytes are read, n > 0
  LET t == [s EXCEPT !.pos = s.pos + n, !.hb = s.hb + n, !.hp = IF s.started THEN s.hp + n ELSE 0]
  IN IF t.pos = Limit(c) THEN CheckPay(c, CheckBlock(c, t)) ELSE t
Begin(c, s) ==         \* start of the payload
  LET t == [s EXCEPT !.started = TRUE]
      t1 == IF Limit(c) = 0 THEN CheckBlock(c, t) ELSE t
  IN IF t.pos = Limit(c) THEN CheckPay(c, t1) ELSE t1
Start(c) ==
  LET s0 == [pos |-> 0, hb |-> 0, hp |-> 0, started |-> FALSE, passed |-> "none", n |-> 0]
      s1 == IF c.kind # "revisit" /\ c.bd = "unknown" THEN Problem(s0) ELSE s0
      s2 == IF c.kind = "plain" /\ c.pd = "unknown" THEN Problem(s1) ELSE s1
      parsed == ~c.norec /\ c.h > 0
      s3 == IF parsed THEN Feed(c, s2, c.h) ELSE s2
  IN IF c.norec THEN s3 ELSE Begin(c, s3)

Init == cf \in Cfg /\ m = Start(cf) /\ hist = <<>>
Read(n) == LET left == Limit(cf) - m.pos
               k == IF n = -1 \/ n > left THEN left ELSE n
           IN /\ left > 0
              /\ m' = Feed(cf, m, k)
              /\ hist' = Append(hist, n)
              /\ UNCHANGED cf
Next == \E n \in Reads : Read(n)
Done == m.pos = Limit(cf)
Right == Done => m.passed = Want /\ m.n = Fails
(* nothing is said to have passed, or failed, before all has been read *)
NotEarly == ~Done => m.passed # "pass" /\ (m.passed = "fail" => cf.bd = "unknown" \/ cf.pd = "unknown")
Emit == Done => PrintT("SCN " \o ToJson([cf |-> cf, reads |-> hist]))
===============================================================================
