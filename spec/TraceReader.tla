----------------------------- MODULE TraceReader -----------------------------
(* C05, C06, C17: recorded calls of the buffered, decompressing, de-chunking   *)
(* and limited readers against the abstract Stream.                            *)
(* case: [id, kind, prop, members, all, raw, raising, te, ce, comp, plain,     *)
(*        limits, exact, evs]                                                  *)
(* event: [op, n, out, exc, rb, consumed, tell, first]                         *)
EXTENDS TraceBase, Chunked
VARIABLES c, l, v, st, Pl
View == <<c, l, v>>
Case == Cases[c]

TChunked == <<99,104,117,110,107,101,100>>
Codings == {<<103,122,105,112>>, <<100,101,102,108,97,116,101>>, <<98,114>>}
Coded(cs) == Lower(cs.ce) \in Codings

(* bytes of the body after transfer decoding *)
Body(cs) == IF Lower(cs.te) = TChunked THEN Decode(cs.raw, cs.raising) ELSE [data |-> cs.raw, err |-> FALSE]

(* what is to be read, by case: a sequence of byte strings (members); whether  *)
(* a problem follows; whether only a prefix of it need come                    *)
Plan(cs) ==
  CASE cs.kind = "buffered" -> [ps |-> IF cs.all THEN <<Concat(cs.members)>> ELSE cs.members, err |-> FALSE, pre |-> FALSE]
    [] cs.kind = "body" ->
         LET b == Body(cs) IN
         IF ~Coded(cs) THEN [ps |-> <<b.data>>, err |-> b.err, pre |-> FALSE]
         ELSE IF b.data = cs.comp THEN [ps |-> <<cs.plain>>, err |-> b.err, pre |-> FALSE]
         ELSE [ps |-> IF IsPrefixOf(b.data, cs.comp) THEN <<cs.plain>> ELSE <<>>, err |-> b.err, pre |-> TRUE]
    [] OTHER -> [ps |-> <<cs.raw>>, err |-> FALSE, pre |-> FALSE]

(* smallest valid limit, -1 if none *)
RECURSIVE MinLimit(_, _, _)
MinLimit(ls, i, acc) == IF i > Len(ls) THEN acc
  ELSE MinLimit(ls, i + 1, IF ls[i] < 0 THEN acc ELSE IF acc < 0 THEN ls[i] ELSE Min2(acc, ls[i]))

LenOf(pl, m) == IF m > Len(pl.ps) THEN 0 ELSE Len(pl.ps[m])
(* m: member, pos: position in it, len: where its data end (limits shorten it), *)
(* end: end of stream seen, base: position at which the limit was put on       *)
InitSt(i, pl) ==
  LET n == LenOf(pl, 1)
      lim == IF Cases[i].kind = "limit" THEN MinLimit(Cases[i].limits, 1, -1) ELSE -1
  IN [pos |-> 0, m |-> 1, len |-> IF lim < 0 THEN n ELSE Min2(n, lim), end |-> FALSE, base |-> 0]

Init == c \in 1..Len(Cases) /\ l = 1 /\ v = Running /\ Pl = Plan(Cases[c]) /\ st = InitSt(c, Pl)

Nm(x) == Case.prop \o "." \o x
Adv(s, out) == [s EXCEPT !.pos = s.pos + Len(out)]
P(s) == IF s.m > Len(Pl.ps) THEN <<>> ELSE Pl.ps[s.m]

(* does a problem have to surface in this call? *)
MustFail(s, ev, full) ==
  Pl.err /\ CASE ev.op = "read" -> ev.n < 0 \/ s.pos + ev.n > s.len
              [] ev.op = "readline" -> ~EndsWith(full, <<LF>>) /\ (ev.n < 0 \/ s.pos + ev.n > s.len)
              [] OTHER -> FALSE

JudgeRead(ev, s) ==
  LET full == IF ev.op = "read" THEN ReadIn(P(s), s.len, s.pos, ev.n) ELSE LineIn(P(s), s.len, s.pos, ev.n) IN
  IF Pl.pre /\ Pl.ps # <<>> THEN
     IF ev.exc = "ChunkedDataException" /\ Pl.err THEN Accept([s EXCEPT !.end = TRUE])
     ELSE IF ev.exc # "" THEN Reject(Nm("no-exception"), ev, s)
     ELSE IF s.end /\ ev.out # <<>> THEN Reject(Nm("data-after-end"), <<ev, s.pos>>, s)
     ELSE IF ~IsPrefixOf(ev.out, full) THEN Reject(Nm("prefix-of-data"), <<ev, s.pos>>, s)
     ELSE Accept([Adv(s, ev.out) EXCEPT !.end = (Len(ev.out) < Len(full))])
  ELSE IF Pl.pre THEN Accept(s)
  ELSE IF MustFail(s, ev, full) THEN
     IF ev.exc = "ChunkedDataException" THEN Accept([s EXCEPT !.end = TRUE])
     ELSE Reject(Nm("problem-raised"), <<ev, s.pos>>, s)
  ELSE IF ev.exc # "" THEN Reject(Nm("no-exception"), <<ev, s.pos>>, s)
  ELSE IF Case.exact THEN
     IF ev.out = full THEN Accept(Adv(s, full))
     ELSE Reject(Nm(ev.op), <<ev, "expected", full, "at", s.pos>>, s)
  ELSE IF Partial(full, ev.out) THEN Accept(Adv(s, ev.out))
       ELSE Reject(Nm(ev.op \o "-partial"), <<ev, "expected", full, "at", s.pos>>, s)

JudgeLimit(r, ev, s) ==
  IF r.clause # "" \/ Case.kind # "limit" THEN r
  ELSE IF ev.consumed > s.len THEN Reject(Nm("over-consumes"), ev, s)
  ELSE IF ev.consumed # r.st.pos THEN Reject(Nm("consumed-not-yielded"), <<ev, r.st.pos>>, s)
  ELSE IF ev.tell >= 0 /\ ev.tell # r.st.pos - s.base THEN Reject(Nm("position"), <<ev, r.st.pos, s.base>>, s)
  ELSE r

Judge(ev, s) ==
  IF s.end /\ ~Pl.pre THEN Accept(s)
  ELSE CASE ev.op \in {"read", "readline"} -> JudgeLimit(JudgeRead(ev, s), ev, s)
    [] ev.op = "next" ->
         IF ev.exc # "" THEN Reject(Nm("no-exception"), ev, s)
         ELSE IF ev.rb # (s.m < Len(Case.members)) THEN Reject(Nm("next-member"), <<ev, s.m>>, s)
         ELSE Accept([s EXCEPT !.m = s.m + 1, !.pos = 0, !.len = LenOf(Pl, s.m + 1)])
    [] ev.op = "wrap" ->     \* (further) limited to n more bytes; the first wrapper counts from here
         IF ev.exc # "" THEN Reject(Nm("no-exception"), ev, s)
         ELSE LET t == IF ev.first THEN [s EXCEPT !.base = s.pos] ELSE s IN
              IF ev.tell >= 0 /\ ev.tell # t.pos - t.base THEN Reject(Nm("position"), <<ev, s.pos>>, s)
              ELSE IF ev.n < 0 THEN Accept(t)
              ELSE Accept([t EXCEPT !.len = Min2(t.len, t.pos + ev.n)])
    [] ev.op = "finish" ->   \* the driver has read until nothing came
         IF Pl.pre \/ Pl.err \/ s.pos = s.len THEN Accept(s) ELSE Reject(Nm("complete"), <<s.pos, s.len>>, s)

Next == /\ v = Running
        /\ Consume(c, l, Len(Case.evs), Judge(Case.evs[l], st), v, l', v', st')
        /\ UNCHANGED <<c, Pl>>
=============================================================================
