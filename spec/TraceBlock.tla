----------------------------- MODULE TraceBlock -----------------------------
(* C09: recorded parses and serialisations of header blocks.                   *)
(* events: parse     [raw, first, prefixes, verify, exc, proto, status, hdrs,  *)
(*                    total, rest]                                             *)
(*         serialise [proto, status, hdrs, filter, exc, text, utf8, ascii,     *)
(*                    buff]                                                    *)
EXTENDS TraceBase, HeaderBlock
VARIABLES c, l, v, st
View == <<c, l, v>>
Case == Cases[c]
Init == c \in 1..Len(Cases) /\ l = 1 /\ v = Running /\ st = 0

Parsed(ev) ==
  IF ev.first = None THEN ParseBlock(ev.raw, Len(ev.raw), 0, ev.prefixes, ev.verify)
  ELSE ParseAfter(ev.raw, Len(ev.raw), ev.first, 0, ev.prefixes, ev.verify)
ExcOf(kind) == CASE kind = "ok" -> "" [] kind = "eof" -> "EOFError" [] kind = "bad" -> "StatusAndHeadersParserException"

JudgeParse(ev, s) ==
  LET p == Parsed(ev) IN
  IF ev.exc # ExcOf(p.kind) THEN Reject("C09.outcome", <<ev, p.kind>>, s)
  ELSE IF ev.rest # Drop(ev.raw, p.next) THEN Reject("C09.consumes", <<ev, "expected rest", Drop(ev.raw, p.next)>>, s)
  ELSE IF p.kind # "ok" THEN Accept(s)
  ELSE IF <<ev.proto, ev.status>> # <<p.proto, p.status>> THEN Reject("C09.status-line", <<ev, p>>, s)
  ELSE IF ev.hdrs # p.hdrs THEN Reject("C09.headers", <<ev.raw, ev.hdrs, "expected", p.hdrs>>, s)
  ELSE Accept(s)

JudgeSer(ev, s) ==
  LET hs == Filtered(ev.filter, ev.hdrs) IN
  IF ev.exc # "" THEN Reject("C09.no-exception", ev, s)
  ELSE IF ev.text # BlockText(ev.proto, ev.status, hs) THEN Reject("C09.text", <<ev, BlockText(ev.proto, ev.status, hs)>>, s)
  ELSE IF ev.utf8 # Utf8Block(ev.proto, ev.status, hs) THEN Reject("C09.utf8", ev, s)
  ELSE IF ev.ascii # AsciiBlock(ev.proto, ev.status, ev.hdrs, ev.filter)
       THEN Reject("C09.ascii", <<ev.ascii, "expected", AsciiBlock(ev.proto, ev.status, ev.hdrs, ev.filter), ev.hdrs>>, s)
  ELSE IF ev.buff # ev.ascii THEN Reject("C09.buffer", ev, s)
  ELSE Accept(s)

(* what was serialised, parsed again by the code *)
JudgeBack(ev, s) ==
  IF ev.exc # "" THEN Reject("C09.no-exception", ev, s)
  ELSE IF ~(WellFormed(ev.hdrs) /\ WellFormedValue(ev.status) /\ ev.status # <<>>) THEN Accept(s)
  ELSE IF ev.hdrs2 # ev.hdrs \/ ev.status2 # ev.status \/ ev.rest # ev.after THEN Reject("C09.round-trip", ev, s)
  ELSE Accept(s)

Judge(ev, s) == CASE ev.op = "parse" -> JudgeParse(ev, s)
                  [] ev.op = "serialise" -> JudgeSer(ev, s)
                  [] ev.op = "back" -> JudgeBack(ev, s)
Next == /\ v = Running
        /\ Consume(c, l, Len(Case.evs), Judge(Case.evs[l], st), v, l', v', st')
        /\ UNCHANGED c
=============================================================================
