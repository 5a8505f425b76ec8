------------------------------- MODULE MCWriter -------------------------------
(* Implementation-shaped model of making and writing a record.  The payload is  *)
(* a stream that may be positioned anywhere and may or may not be told and      *)
(* seeked; making the record may read HTTP headers off it and digest it, and    *)
(* writing it digests it again, maybe into a temporary file, states a length     *)
(* and copies it.  For every way to supply the content, what is written must be  *)
(* what Writer.tla says: head and content, their true length and their digests.  *)
(* Bytes are numbers: 99 before the start, 100 101 HTTP head, 1 2 .. content.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Wide == IOEnv.WIDE = "1"
Types == {"response", "revisit", "warcinfo", "resource"}
Https == {"none", "sep", "emb"}
Kinds == {"seek", "tell", "none"}
Sizes == IF Wide THEN 0..3 ELSE {0, 2}

VARIABLES cf, step, rec, out, made
vars == <<cf, step, rec, out, made>>

Cfg == {c \in [type : Types, http : Https, may : BOOLEAN, pre : {0, 2}, kind : Kinds, known : BOOLEAN, n : Sizes,
               gp : BOOLEAN, gb : BOOLEAN, nopay : BOOLEAN] :
          /\ (c.http = "emb" => c.may /\ c.type \in {"response", "revisit"} /\ ~c.nopay)
          /\ (c.nopay => c.n = 0 /\ c.known /\ c.kind = "seek" /\ c.pre = 0)
          /\ (c.kind = "none" => c.pre = 0)
          \* without headers an HTTP record's payload must be empty
          /\ (c.may /\ c.http = "none" /\ c.type \in {"response", "revisit"} => c.n = 0)
          /\ (c.http = "sep" => c.type # "warcinfo")
          /\ (c.type = "warcinfo" => ~c.may)}

Content(c) == [i \in 1..c.n |-> i]
HeadOf(c) == IF c.http = "none" THEN <<>> ELSE <<100, 101>>
Data(c) == [i \in 1..c.pre |-> 99] \o (IF c.http = "emb" THEN HeadOf(c) ELSE <<>>) \o Content(c)
(* ---- what must be written *)
Block(c) == IF c.type = "revisit" /\ c.http # "none" THEN HeadOf(c) ELSE HeadOf(c) \o Content(c)
Exempt(c) == c.type \in {"revisit", "warcinfo"}

(* ---- the machine *)
Unset == <<-1>>
Given == <<-2>>
NoLen == -1
Rest(s) == SubSeq(s.data, s.pos + 1, Len(s.data))
(* digests already there (or exempt) need no reading, unless the length is unknown *)
Ensure(r, block, payload) ==
  LET b == block /\ r.bd = Unset
      p == payload /\ r.pd = Unset /\ ~r.exempt
      haslen == r.length # NoLen
      seekable == haslen /\ r.s.kind = "seek"
      only == r.revisit /\ r.http
      got == Rest(r.s)
      r1 == IF p THEN [r EXCEPT !.pd = got] ELSE r
      r2 == IF b THEN [r1 EXCEPT !.bd = (IF r.http THEN r.head ELSE <<>>) \o (IF only THEN <<>> ELSE got)] ELSE r1
  IN IF ~b /\ ~p /\ haslen THEN r
     ELSE IF seekable THEN r2           \* read through and back to where it was
     ELSE [r2 EXCEPT !.plen = Len(got), !.s = [data |-> got, pos |-> 0, kind |-> "seek"]]

Make(c) ==
  LET s0 == [data |-> Data(c), pos |-> c.pre, kind |-> c.kind]
      len0 == IF c.nopay THEN 0 ELSE IF c.known THEN Len(Data(c)) - c.pre ELSE NoLen
      s1 == IF c.http = "emb" THEN [s0 EXCEPT !.pos = s0.pos + 2] ELSE s0
      len1 == IF c.http = "emb" /\ len0 # NoLen THEN len0 - (s1.pos - s0.pos) ELSE len0
      r == [s |-> s1, length |-> len1, plen |-> len1, http |-> c.http # "none", head |-> HeadOf(c), revisit |-> c.type = "revisit",
            exempt |-> Exempt(c), pd |-> IF c.gp THEN Given ELSE Unset, bd |-> IF c.gb THEN Given ELSE Unset]
  IN Ensure(r, FALSE, TRUE)

Write(r) ==
  LET r1 == IF r.length = NoLen
            THEN LET a == Ensure([r EXCEPT !.bd = Unset, !.pd = IF r.revisit THEN r.pd ELSE Unset], TRUE, TRUE)
                 IN [a EXCEPT !.length = a.plen]
            ELSE Ensure(r, TRUE, TRUE)
      only == r.revisit /\ r.http
      len == IF r1.http /\ r1.plen >= 0 THEN Len(r1.head) + (IF only THEN 0 ELSE r1.plen) ELSE r1.length
  IN [len |-> len, block |-> (IF r1.http THEN r1.head ELSE <<>>) \o (IF only THEN <<>> ELSE Rest(r1.s)), bd |-> r1.bd, pd |-> r1.pd]

NoOut == [len |-> NoLen, block |-> <<>>, bd |-> Unset, pd |-> Unset]
Init == cf \in Cfg /\ step = "make" /\ rec = <<>> /\ out = NoOut /\ made = FALSE
Next == \/ step = "make" /\ rec' = Make(cf) /\ step' = "write" /\ UNCHANGED <<cf, out, made>>
        \/ step = "write" /\ out' = Write(rec) /\ step' = "done" /\ made' = TRUE /\ UNCHANGED <<cf, rec>>

Framed == made => out.len = Len(out.block) /\ out.block = Block(cf)
BlockDigest == made => IF cf.gb /\ (cf.known \/ cf.nopay) THEN out.bd = Given ELSE out.bd = Block(cf)
PayloadDigest == made =>
  IF cf.type = "revisit" THEN out.pd = (IF cf.gp THEN Given ELSE Unset)
  ELSE IF cf.gp /\ (cf.known \/ cf.nopay) THEN out.pd = Given
  ELSE IF Exempt(cf) THEN out.pd = Unset ELSE out.pd = Content(cf)
Emit == made => PrintT("SCN " \o ToJson(cf))
===============================================================================
