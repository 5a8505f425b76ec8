---------------------------- MODULE TraceHeaders ----------------------------
(* C08: traces of StatusAndHeaders operations against Headers.tla.            *)
(* case: [id, init |-> h, status |-> text, evs |-> Seq(event)]                *)
(* event: [op, name, value, ret, rb, hs, status, gets |-> Seq(<<n, default, v, present>>)] *)
EXTENDS TraceBase, Headers
VARIABLES c, l, v, st
View == <<c, l, v>>
vars == <<c, l, v, st>>
Case == Cases[c]

St(h, s) == [h |-> h, status |-> s]
Init == /\ c \in 1..Len(Cases) /\ l = 1 /\ v = Running
        /\ st = St(Cases[c].init, Cases[c].status)

(* status code: digits up to the first space *)
Code(s) == LET i == IndexFrom(s, SP, 1) IN IF i = 0 THEN s ELSE Slice(s, 1, i - 1)
ValidCode(t) == IsDec(t) /\ Dec(t) > 0

LookupsOk(ev, h) ==
  \A i \in 1..Len(ev.gets) : LET g == ev.gets[i] IN
     /\ g[3] = Get(h, g[1], g[2])
     /\ g[4] = (Has(h, g[1]) /\ Get(h, g[1], <<>>) # <<>>)

RangeText(a, n, t) == <<98,121,116,101,115,32>> \o NumText(a) \o <<45>> \o NumText(a + n - 1) \o <<47>> \o NumText(t)
NContentRange == <<67,111,110,116,101,110,116,45,82,97,110,103,101>>
NContentLength == <<67,111,110,116,101,110,116,45,76,101,110,103,116,104>>
NAcceptRanges == <<65,99,99,101,112,116,45,82,97,110,103,101,115>>
TBytes == <<98,121,116,101,115>>
THttp10 == <<72,84,84,80,47,49,46,48>>
T206 == <<50,48,54,32,80,97,114,116,105,97,108,32,67,111,110,116,101,110,116>>
(* replacing one header, any matching entry *)
RSet(H, n, val) == UNION {{o.h : o \in ReplaceOutcomes(h, n, val)} : h \in H}

(* [h, ret, rb, status] allowed for an event *)
Allowed(ev, s) ==
  CASE ev.op = "add" -> {[h |-> Add(s.h, ev.name, ev.value), ret |-> None, rb |-> FALSE, status |-> s.status]}
    [] ev.op \in {"replace", "setitem"} ->
         {[h |-> o.h, ret |-> IF ev.op = "replace" THEN o.ret ELSE None, rb |-> FALSE, status |-> s.status]
            : o \in ReplaceOutcomes(s.h, ev.name, ev.value)}
    [] ev.op \in {"remove", "delitem"} ->
         {[h |-> o.h, ret |-> None, rb |-> IF ev.op = "remove" THEN o.ret ELSE FALSE, status |-> s.status]
            : o \in RemoveOutcomes(s.h, ev.name)}
    [] ev.op = "range" ->
         {[h |-> h, ret |-> None, rb |-> FALSE, status |-> T206] :
            h \in RSet(RSet(RSet({s.h}, NContentRange, RangeText(ev.a, ev.n, ev.t)),
                            NContentLength, NumText(ev.n)), NAcceptRanges, TBytes)}
    [] ev.op = "validate" ->
         {[h |-> s.h, ret |-> None, rb |-> ValidCode(Code(s.status)),
           status |-> IF ValidCode(Code(s.status)) THEN s.status ELSE ev.value]}
    [] ev.op = "same" ->     \* compared with a collection that has these entries, status line, protocol
         {[h |-> s.h, ret |-> None, rb |-> (ev.other = s.h /\ ev.value = s.status /\ ev.proto), status |-> s.status]}
    [] ev.op = "made" ->     \* of a request the first word of the line takes the place of the protocol
         LET k == IF ev.form = "request" THEN IndexFrom(ev.name, SP, 1) ELSE 0
             status == Drop(ev.name, k)
         IN {[h |-> s.h, ret |-> IF k = 0 THEN THttp10 ELSE Slice(ev.name, 1, k - 1), rb |-> (status # <<>> \/ s.h # <<>>), status |-> status]}
    [] ev.op = "bool" -> {[h |-> s.h, ret |-> None, rb |-> (s.status # <<>> \/ s.h # <<>>), status |-> s.status]}
    [] ev.op = "code" -> {[h |-> s.h, ret |-> Code(s.status), rb |-> FALSE, status |-> s.status]}

Judge(ev, s) ==
  LET A == Allowed(ev, s) IN
  IF ev.exc # "" THEN Reject("C08.no-exception", ev, s)
  ELSE IF ~\E o \in A : o.h = ev.hs THEN Reject("C08." \o ev.op \o "-state", <<ev, s>>, s)
  ELSE IF ~\E o \in A : o.h = ev.hs /\ o.ret = ev.ret /\ o.rb = ev.rb THEN Reject("C08." \o ev.op \o "-result", <<ev, s>>, s)
  ELSE IF ~\E o \in A : o.h = ev.hs /\ o.status = ev.status THEN Reject("C08." \o ev.op \o "-status", <<ev, s>>, s)
  ELSE IF ~LookupsOk(ev, ev.hs) THEN Reject("C08.lookup", <<ev, s>>, s)
  ELSE Accept(St(ev.hs, ev.status))

Next == /\ v = Running
        /\ Consume(c, l, Len(Case.evs), Judge(Case.evs[l], st), v, l', v', st')
        /\ UNCHANGED c
=============================================================================
