------------------------------ MODULE TraceWriter ------------------------------
(* C01, C02, C21: recorded runs of a writer.                                      *)
(* case: [id, prop, recs, gzip, filter, env, evs]                                 *)
(* events: write    [ns: records written, texts: what reached the output (one per  *)
(*                  complete gzip member, or one text), rest: is there any other   *)
(*                  output, exc, t0, t1]                                           *)
(*         contents [texts, rest]: what the in-memory writer says it holds         *)
(*         back     [k, kind, rec, out]: k-th record read back                     *)
EXTENDS TraceBase, Writer, FiniteSets
VARIABLES c, l, v, st, Pl
View == <<c, l, v>>
Case == Cases[c]
Nm(x) == Case.prop \o "." \o x
Plan(cs) == [p |-> [i \in 1..Len(cs.recs) |-> Parts(cs.recs[i], cs.filter)]]
Init == /\ c \in 1..Len(Cases) /\ l = 1 /\ v = Running /\ Pl = Plan(Cases[c])
        /\ st = [texts |-> <<>>, hdrs |-> <<>>, order |-> <<>>, ids |-> {}, wants |-> <<>>]

NoPair == [id |-> None, date |-> None, uri |-> None]
(* hs: headers of the records written by the same event, so far *)
PairOf(in, ns, hs) ==
  IF in.pair = 0 THEN NoPair
  ELSE LET k == First({k \in 1..Len(ns) : ns[k] = in.pair}) h == hs[k] IN
       [id |-> Get(h, TRecordId, None), date |-> Get(h, TDate, None), uri |-> Get(h, TTargetUri, None)]

RECURSIVE JudgeRecs(_, _, _, _, _)
(* records ev.ns[k..]; pos in the current text; hs, ws as found so far *)
JudgeRecs(ev, k, pos, hs, ws) ==
  IF k > Len(ev.ns) THEN
     IF ~Case.gzip /\ ev.texts # <<>> /\ pos # Len(ev.texts[1]) THEN [clause |-> "extra-output", detail |-> <<pos, ev.texts>>, hs |-> hs, ws |-> ws]
     ELSE [clause |-> "", detail |-> "", hs |-> hs, ws |-> ws]
  ELSE LET in == Case.recs[ev.ns[k]]
           text == IF Case.gzip THEN ev.texts[k] ELSE ev.texts[1]
           r == WrittenAt(text, pos, in, Pl.p[ev.ns[k]], Case.env, PairOf(in, ev.ns, hs), ev)
       IN IF r.clause # "" THEN [clause |-> r.clause, detail |-> <<in, "got", r.got, "want", r.want, text>>, hs |-> hs, ws |-> ws]
          ELSE IF Case.gzip /\ r.next # Len(text) THEN [clause |-> "extra-output", detail |-> text, hs |-> hs, ws |-> ws]
          ELSE JudgeRecs(ev, k + 1, IF Case.gzip THEN 0 ELSE r.next, Append(hs, r.hdrs), Append(ws, r.want))

Generated(in) == ~in.whole /\ Empty(in.given, TRecordId)
JudgeWrite(ev, s) ==
  IF \E k \in 1..Len(ev.ns) : Pl.p[ev.ns[k]].bad THEN
     (IF ev.exc # "" THEN Accept(s) ELSE Reject("machinery-bad-http", ev, s))
  ELSE IF ev.exc # "" THEN Reject(Nm("exception"), <<ev, [k \in 1..Len(ev.ns) |-> Case.recs[ev.ns[k]]]>>, s)
  ELSE IF ~Case.frames THEN      \* only what is read back counts
     Accept([s EXCEPT !.order = s.order \o ev.ns, !.texts = s.texts \o ev.texts])
  ELSE IF ev.rest \/ (Case.gzip /\ Len(ev.texts) # Len(ev.ns)) \/ (~Case.gzip /\ Len(ev.texts) # 1)
     THEN Reject(Nm(IF Case.gzip THEN "one-member-each" ELSE "reached-output"), <<ev, Case.gzip>>, s)
  ELSE LET r == JudgeRecs(ev, 1, 0, <<>>, <<>>)
           ids == {Get(r.hs[k], TRecordId, None) : k \in {k \in 1..Len(r.hs) : Generated(Case.recs[ev.ns[k]])}}
       IN IF r.clause # "" THEN Reject(Nm(r.clause), r.detail, s)
          ELSE IF ids \cap s.ids # {} \/ Cardinality(ids) # Cardinality({k \in 1..Len(r.hs) : Generated(Case.recs[ev.ns[k]])})
               THEN Reject(Nm("record-id"), ids, s)
          ELSE IF Case.prop = "C21" /\ s.hdrs # <<>> /\ HeaderDiff(s.hdrs[1], r.hs[1], Case.recs[1], ev) # ""
               THEN Reject(Nm("differs"), <<"first", s.hdrs[1], "this", r.hs[1]>>, s)
          ELSE Accept([s EXCEPT !.texts = s.texts \o ev.texts, !.order = s.order \o ev.ns, !.ids = s.ids \cup ids,
                                !.hdrs = s.hdrs \o r.hs, !.wants = s.wants \o r.ws])

JudgeContents(ev, s) ==
  IF ev.exc # "" THEN Reject(Nm("contents"), ev, s)
  ELSE IF ev.rest \/ (IF Case.gzip THEN ev.texts # s.texts ELSE Concat(ev.texts) # Concat(s.texts))
       THEN Reject(Nm("contents"), <<ev, s.texts>>, s)
  ELSE Accept(s)

(* the response written just before a request of a pair, as read back *)
RespOf(s, k, in) == IF in.pair = 0 THEN NoPair ELSE
  LET j == Last({j \in 1..k : s.order[j] = in.pair}) h == s.hdrs[j] IN
  [id |-> Get(h, TRecordId, None), date |-> Get(h, TDate, None), uri |-> Get(h, TTargetUri, None)]
(* C01 speaks of what was given, not of computed lengths and digests *)
Promised(in, h) ==
  IF Case.frames THEN h
  ELSE LET given == IF in.known THEN {Lower(in.given[i][1]) : i \in 1..Len(in.given)} ELSE {}
           rv == IF in.kind = "revisit" THEN {Lower(TPayloadDigest)} ELSE {}
           drop == ({Lower(TBlockDigest), Lower(TPayloadDigest)} \ (given \cup rv)) \cup {Lower(TContentLength)}
       IN SelectSeq(h, LAMBDA x : Lower(x[1]) \notin drop)
JudgeBack(ev, s) ==
  IF ev.kind = "stop" THEN (IF ev.k = Len(s.order) + 1 THEN Accept(s) ELSE Reject(Nm("missing-record"), <<ev.k, Len(s.order)>>, s))
  ELSE IF ev.kind # "rec" THEN Reject(Nm("read-exception"), ev, s)
  ELSE IF ev.k > Len(s.order) THEN Reject(Nm("extra-record"), ev, s)
  ELSE LET i == s.order[ev.k]
           in == Case.recs[i]
           want == Final(in, Pl.p[i], Case.env, RespOf(s, ev.k, in))
           b == ReadBack(in, Pl.p[i], want)
           d == HeaderDiff(Promised(in, b.hdrs), Promised(in, ev.rec.hdrs), in, ev)
           fh == Filtered(Case.filter, IF AllAscii(b.http.proto, b.http.status, Filtered(Case.filter, b.http.hdrs)) THEN b.http.hdrs ELSE EncHeaders(b.http.hdrs))
           s1 == IF Case.frames THEN s ELSE [s EXCEPT !.hdrs = Append(s.hdrs, ev.rec.hdrs)]
       IN IF ev.rec.type # b.type THEN Reject(Nm("type"), <<ev.rec, b>>, s)
          ELSE IF ev.rec.fmt # "warc" \/ ev.rec.proto # in.proto THEN Reject(Nm("version"), <<ev.rec, in>>, s)
          ELSE IF d # "" THEN Reject(Nm(d), <<"got", ev.rec.hdrs, "want", b.hdrs>>, s)
          ELSE IF ev.rec.http.has # b.has THEN Reject(Nm("http-headers-present"), <<ev.rec, b>>, s)
          ELSE IF b.has /\ (ev.rec.http.proto # Upper(b.http.proto) \/ ev.rec.http.status # QuoteNonAscii(b.http.status)) THEN Reject(Nm("http-status-line"), <<ev.rec, b>>, s)
          ELSE IF b.has /\ ev.rec.http.hdrs # [j \in 1..Len(fh) |-> <<QuoteNonAscii(fh[j][1]), QuoteNonAscii(fh[j][2])>>]
               THEN Reject(Nm("http-headers"), <<"got", ev.rec.http.hdrs, "want", fh>>, s)
          ELSE IF ev.out # b.content THEN Reject(Nm("content"), <<"got", ev.out, "want", b.content>>, s)
          ELSE Accept(s1)

Judge(ev, s) == CASE ev.op = "write" -> JudgeWrite(ev, s)
                  [] ev.op = "contents" -> JudgeContents(ev, s)
                  [] ev.op = "back" -> JudgeBack(ev, s)
Next == /\ v = Running
        /\ Consume(c, l, Len(Case.evs), Judge(Case.evs[l], st), v, l', v', st')
        /\ UNCHANGED <<c, Pl>>
===============================================================================
