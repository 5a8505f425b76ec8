------------------------------ MODULE TraceCapture -----------------------------
(* C13, C14: recorded runs of captures.                                           *)
(* case: [id, prop, threads, targets, ctxs, conns, exs, env, t0, t1, m0, m1, evs]        *)
(*   target: [gzip, proto, kind ("mem"/"path"/"new"), there]                      *)
(*   ctx:    [target, filter, ip]                                                 *)
(*   conn:   [scheme, host, port, dport, proxy: [kind, host, port]]           *)
(*   ex:     [conn, ip (the address it was with), target (of the request), req, res (bytes), body, status,       *)
(*            hdrs, cut, fixed (end known from the headers)]                                                           *)
(* events: enter [t, ctx, exc]   exit [t, exc, got]   open [t, c]                 *)
(*         req [t, e, exc]   got [e, status, hdrs, exc]                           *)
(*         read [e, how, n, out, exc]   close [e]                                 *)
(*         look [grow]: [k, texts, rest, kept] what targets have grown by          *)
EXTENDS TraceBase, Writer, Capture
VARIABLES c, l, v, st, Pl
View == <<c, l, v>>
Case == Cases[c]
Nm(x) == Case.prop \o "." \o x
TProxy == <<87,65,82,67,45,80,114,111,120,121,45,72,111,115,116>>
TXFilter == <<88,45,70,105,108,116,101,114>>
TResp == <<114,101,115,112>>
TReq == <<114,101,113>>
Css == <<58,47,47>>
SHttp == <<104,116,116,112>>
SHttps == <<104,116,116,112,115>>
TDig == <<115,104,97,49,58,88,89,90>>                 \* sha1:XYZ
TRDate == <<50,48,50,48,45,48,49,45,48,50,84,48,51,58,48,52,58,48,53,90>>
UrlHost(h) == IF \E i \in 1..Len(h) : h[i] = COLON THEN <<91>> \o h \o <<93>> ELSE h
Url(cs, x) ==
  LET n == cs.conns[x.conn] IN
  IF IsPrefixOf(THttp, x.target) THEN x.target
  ELSE IF n.proxy.kind = "plain" THEN SHttp \o Css \o UrlHost(n.proxy.host) \o (IF n.proxy.port = 80 THEN <<>> ELSE <<COLON>> \o NumText(n.proxy.port)) \o x.target
  ELSE n.scheme \o Css \o UrlHost(n.host) \o (IF n.port = n.dport THEN <<>> ELSE <<COLON>> \o NumText(n.port)) \o x.target
(* a request that is not in absolute form is for the proxy itself *)
Proxied(n, x) == n.proxy.kind = "tunnel" \/ (n.proxy.kind = "plain" /\ IsPrefixOf(THttp, x.target))
ProxyOf(n) == (IF n.proxy.kind = "tunnel" THEN SHttps ELSE SHttp) \o Css \o UrlHost(n.proxy.host) \o <<COLON>> \o NumText(n.proxy.port)

In(type, uri, pay) ==
  [kind |-> "plain", type |-> type, uri |-> uri, given |-> <<>>, whole |-> FALSE, proto |-> TWarc10, ctype |-> <<>>, http |-> NoHttp,
   pay |-> pay, nopay |-> FALSE, known |-> TRUE, pair |-> 0, info |-> <<>>, filename |-> <<>>, digest |-> <<>>, ruri |-> <<>>, rdate |-> <<>>]
(* bytes of a request or response; any method or protocol *)
CapParts(pay) ==
  LET p == IF pay = <<>> THEN [kind |-> "eof"] ELSE ParseBlock(pay, Len(pay), 0, <<>>, FALSE) IN
  IF p.kind # "ok" THEN [bad |-> FALSE, real |-> FALSE, head |-> <<>>, content |-> <<>>, block |-> <<>>, http |-> NoHttp]
  ELSE [bad |-> FALSE, real |-> TRUE, head |-> Slice(pay, 1, p.next), content |-> Drop(pay, p.next), block |-> pay,
        http |-> [has |-> TRUE, proto |-> p.proto, status |-> p.status, hdrs |-> p.hdrs]]
Plan(cs) == [p |-> [i \in 1..Len(cs.exs) |->
               LET x == cs.exs[i] IN [url |-> Url(cs, x), resp |-> CapParts(x.res), req |-> CapParts(x.req)]]]
Init == /\ c \in 1..Len(Cases) /\ l = 1 /\ v = Running /\ Pl = Plan(Cases[c])
        /\ st = [stack |-> [t \in 1..Cases[c].threads |-> <<>>], open |-> {},
                 cctx |-> [n \in 1..Len(Cases[c].conns) |-> -1],
                 ex |-> [e \in 1..Len(Cases[c].exs) |-> [st |-> 0, ctx |-> 0, pos |-> 0, due |-> FALSE, rec |-> FALSE, end |-> FALSE]],
                 there |-> {k \in 1..Len(Cases[c].targets) : Cases[c].targets[k].there}]

(* ---- contexts *)
JudgeEnter(ev, s) ==
  LET x == Case.ctxs[ev.ctx] k == x.target
      refuse == Case.targets[k].kind = "new" /\ k \in s.there
  IN IF refuse THEN (IF ev.exc = "os" THEN Accept(s) ELSE Reject(Nm("overwrites"), ev, s))
     ELSE IF ev.exc # "" THEN Reject(Nm("enter"), ev, s)
     ELSE Accept([s EXCEPT !.stack = Push(s.stack, ev.t, ev.ctx), !.open = s.open \cup {ev.ctx}, !.there = s.there \cup {k}])
JudgeExit(ev, s) ==
  IF ev.got # ev.exc THEN Reject(Nm("exit"), ev, s)
  ELSE Accept([s EXCEPT !.stack = Pop(s.stack, ev.t), !.open = s.open \ {Top(s.stack, ev.t)}])

(* ---- exchanges *)
Opened(s, t, n) == IF s.cctx[n] # -1 THEN s ELSE [s EXCEPT !.cctx[n] = Top(s.stack, t)]
JudgeReq(ev, s) ==
  LET n == Case.exs[ev.e].conn
      o == Opened(s, ev.t, n)
      x == o.cctx[n]
  IN IF ev.exc # "" THEN Reject(Nm("request-exception"), ev, s)
     ELSE Accept([o EXCEPT !.ex[ev.e] = [st |-> 1, ctx |-> x, pos |-> 0, due |-> x # 0 /\ x \in s.open, rec |-> FALSE, end |-> FALSE]])
JudgeGot(ev, s) ==
  LET x == Case.exs[ev.e] IN
  IF ev.exc # "" THEN Reject(Nm("response-exception"), ev, s)
  ELSE IF ev.status # x.status THEN Reject(Nm("application-status"), ev, s)
  ELSE IF ev.hdrs # <<>> /\ ev.hdrs # x.hdrs THEN Reject(Nm("application-headers"), <<ev, x.hdrs>>, s)
  ELSE Accept([s EXCEPT !.ex[ev.e].st = 2])
Rem(s, e) == Drop(Case.exs[e].body, s.ex[e].pos)
FirstLine(t) == LET k == IndexFrom(t, LF, 1) IN IF k = 0 THEN t ELSE SubSeq(t, 1, k)
Cap(t, n) == IF n < 0 THEN t ELSE SubSeq(t, 1, Min2(n, Len(t)))
(* this read has met the end of the response *)
Ends(ev) == CASE ev.how = "all" -> TRUE [] ev.how = "peek" -> FALSE
              [] ev.how = "read" -> ev.n < 0 \/ Len(ev.out) < ev.n
              [] OTHER -> ev.out = <<>> /\ ev.n # 0
(* may reading give this?  [ok, used] *)
JudgeRead(ev, s) ==
  LET rem == Rem(s, ev.e)
      n == Len(ev.out)
      ok == CASE ev.how = "read" -> ev.out = Cap(rem, ev.n)
              [] ev.how = "line" -> ev.out = Cap(FirstLine(rem), ev.n)
              [] ev.how = "some" -> IsPrefixOf(ev.out, rem) /\ (ev.n < 0 \/ n <= ev.n) /\ (n > 0 \/ rem = <<>> \/ ev.n = 0)
              [] ev.how = "peek" -> IsPrefixOf(ev.out, rem)
              [] OTHER -> ev.out = rem
  IN IF Case.exs[ev.e].cut /\ ev.exc # "" THEN Accept([s EXCEPT !.ex[ev.e].due = FALSE])
     ELSE IF ev.exc # "" THEN Reject(Nm("application-exception"), ev, s)
     ELSE IF Case.exs[ev.e].cut /\ IsPrefixOf(ev.out, rem) THEN Accept([s EXCEPT !.ex[ev.e].pos = @ + (IF ev.how = "peek" THEN 0 ELSE n)])
     ELSE IF ~ok THEN Reject(Nm("application-data"), <<ev, "remaining", rem>>, s)
     ELSE Accept([s EXCEPT !.ex[ev.e].pos = @ + (IF ev.how = "peek" THEN 0 ELSE n),
                           !.ex[ev.e].end = @ \/ Ends(ev)])
JudgeClose(ev, s) ==
  LET x == s.ex[ev.e] IN
  IF ev.exc # "" THEN Reject(Nm("close-exception"), ev, s)
  ELSE Accept([s EXCEPT !.ex[ev.e].st = 3, !.ex[ev.e].due = x.due /\ x.ctx \in s.open /\ (x.end \/ (Case.exs[ev.e].fixed /\ Rem(s, ev.e) = <<>>)) /\ ~Case.exs[ev.e].cut])

(* ---- what is recorded *)
Status3(x) == SubSeq(x.status, 1, 3)
Code200 == <<50, 48, 48>>
Writes(i, e) == LET f == Case.ctxs[i].filter IN CASE f \in {"skip", "noreq", "noresp", "raise"} -> FALSE
                                                [] f = "status" -> Status3(Case.exs[e]) = Code200 [] OTHER -> TRUE
Given(i, e, isresp) ==
  LET x == Case.ctxs[i] n == Case.conns[Case.exs[e].conn] IN
  (IF x.ip THEN << <<TIp, Case.exs[e].ip>> >> ELSE <<>>) \o (IF Proxied(n, Case.exs[e]) THEN << <<TProxy, ProxyOf(n)>> >> ELSE <<>>)
    \o (IF x.filter = "header" THEN << <<TXFilter, IF isresp THEN TResp ELSE TReq>> >> ELSE <<>>)
RespIn(i, e) ==
  LET a == [In(TResponse, Pl.p[e].url, Case.exs[e].res) EXCEPT !.proto = Case.targets[Case.ctxs[i].target].proto, !.given = Given(i, e, TRUE)]
      h == Pl.p[e].resp.http
  IN IF Case.ctxs[i].filter # "revisit" THEN a
     ELSE [a EXCEPT !.kind = "revisit", !.type = TRevisit, !.given = <<>>, !.http = [has |-> TRUE, proto |-> h.proto, status |-> h.status, hdrs |-> h.hdrs],
                    !.pay = <<>>, !.nopay = TRUE, !.digest = TDig, !.ruri = Pl.p[e].url, !.rdate = TRDate]
ReqIn(i, e) == [In(TRequest, Pl.p[e].url, Case.exs[e].req) EXCEPT !.proto = Case.targets[Case.ctxs[i].target].proto, !.given = Given(i, e, FALSE), !.pair = 1]
(* no order among the headers *)
Loose(in) == [in EXCEPT !.given = <<>>]
(* the record at pos of text must be this one; or one of a part of its bytes, if    *)
(* the exchange was not completed                                                   *)
RECURSIVE NumOf(_, _, _)
NumOf(t, k, acc) == IF k > Len(t) THEN acc ELSE NumOf(t, k + 1, acc * 10 + t[k] - 48)
Declared(q) == LET t == Get(q.hdrs, TContentLength, <<>>) IN IF t # <<>> /\ Len(t) < 9 /\ \A k \in 1..Len(t) : IsDigit(t[k]) THEN NumOf(t, 1, 0) ELSE 0
OneRecord(text, pos, in, p, part, pair) ==
  LET q == ParseBlock(text, Len(text), pos, Versions, TRUE)
      i2 == IF part /\ in.kind = "plain" THEN [in EXCEPT !.pay = Cap(in.pay, Declared(q))] ELSE in
      p1 == IF part THEN CapParts(i2.pay) ELSE p
      p2 == IF in.kind = "plain" THEN p1 ELSE [p EXCEPT !.block = AsciiBlock(p.http.proto, p.http.status, p.http.hdrs, NoFilter)]
  IN WrittenAs(text, pos, Versions, Loose(i2), p2.block, Final(i2, p2, Case.env, pair),
                IF in.proto = TWarc11 THEN [t0 |-> Case.m0, t1 |-> Case.m1] ELSE [t0 |-> Case.t0, t1 |-> Case.t1])

FindUrl(s, k, text, pos) ==
  LET q == ParseBlock(text, Len(text), pos, Versions, TRUE)
      u == Get(q.hdrs, TTargetUri, None)
  IN IF q.kind # "ok" THEN {} ELSE {e \in 1..Len(Case.exs) : Pl.p[e].url = u /\ s.ex[e].st > 0 /\ s.ex[e].ctx # 0
                                      /\ Case.ctxs[s.ex[e].ctx].target = k /\ ~s.ex[e].rec}
(* growth of target k: pairs of records one after the other                         *)
RECURSIVE JudgePairs(_, _, _, _)
JudgePairs(g, m, pos, s) ==
  LET gz == Case.targets[g.k].gzip
      end == IF gz THEN m > Len(g.texts) ELSE g.texts = <<>> \/ pos = Len(g.texts[1])
      text == IF gz THEN g.texts[m] ELSE g.texts[1]
      E == FindUrl(s, g.k, text, pos)
      e == First(E)
      i == s.ex[e].ctx
      part == ~(s.ex[e].due /\ s.ex[e].st = 3)
      r1 == OneRecord(text, pos, RespIn(i, e), Pl.p[e].resp, part, [id |-> None, date |-> None, uri |-> None])
      text2 == IF gz THEN g.texts[m + 1] ELSE text
      pos2 == IF gz THEN 0 ELSE r1.next
      pair == [id |-> Get(r1.hdrs, TRecordId, None), date |-> Get(r1.hdrs, TDate, None), uri |-> Get(r1.hdrs, TTargetUri, None)]
      pq == Pl.p[e].req
      r2 == OneRecord(text2, pos2, ReqIn(i, e), pq, FALSE, pair)
  IN IF end THEN Accept(s)
     ELSE IF E = {} THEN Reject(Nm("foreign-record"), <<g.k, text, pos>>, s)
     ELSE IF ~Writes(i, e) THEN Reject(Nm("filtered-record"), <<g.k, e>>, s)
     ELSE IF r1.clause # "" THEN Reject(Nm("response-" \o r1.clause), <<e, "got", r1.got, "want", r1.want, text, Case.exs[e].res>>, s)
     ELSE IF gz /\ (r1.next # Len(text) \/ m = Len(g.texts)) THEN Reject(Nm("one-member-each"), g, s)
     ELSE IF r2.clause # "" THEN Reject(Nm("request-" \o r2.clause), <<e, "got", r2.got, "want", r2.want, text2, Case.exs[e].req>>, s)
     ELSE IF gz /\ r2.next # Len(text2) THEN Reject(Nm("one-member-each"), g, s)
     ELSE JudgePairs(g, IF gz THEN m + 2 ELSE m, IF gz THEN 0 ELSE r2.next, [s EXCEPT !.ex[e].rec = TRUE])
RECURSIVE JudgeGrow(_, _, _)
JudgeGrow(gs, j, s) ==
  IF j > Len(gs) THEN Accept(s)
  ELSE LET g == gs[j]
           r == JudgePairs(g, 1, 0, s)
       IN IF ~g.kept THEN Reject(Nm("existing-data"), g, s)
          ELSE IF g.rest THEN Reject(Nm("garbled"), g, s)
          ELSE IF r.clause # "" THEN r
          ELSE JudgeGrow(gs, j + 1, r.st)
Settled(s, k) == Case.targets[k].kind = "mem" \/ ~\E i \in s.open : Case.ctxs[i].target = k
JudgeLook(ev, s) ==
  LET r == JudgeGrow(ev.grow, 1, s)
      late == {e \in 1..Len(Case.exs) : LET x == r.st.ex[e] IN x.st = 3 /\ x.due /\ ~x.rec /\ Writes(x.ctx, e) /\ Settled(s, Case.ctxs[x.ctx].target)}
  IN IF r.clause # "" THEN r
     ELSE IF late # {} THEN Reject(Nm("not-recorded"), <<First(late), Pl.p[First(late)].url, ev>>, s)
     ELSE r

Judge(ev, s) == CASE ev.op = "enter" -> JudgeEnter(ev, s)
                  [] ev.op = "exit" -> JudgeExit(ev, s)
                  [] ev.op = "open" -> Accept(Opened(s, ev.t, ev.c))
                  [] ev.op = "req" -> JudgeReq(ev, s)
                  [] ev.op = "got" -> JudgeGot(ev, s)
                  [] ev.op = "read" -> JudgeRead(ev, s)
                  [] ev.op = "close" -> JudgeClose(ev, s)
                  [] ev.op = "look" -> JudgeLook(ev, s)
                  [] ev.op = "hang" -> Reject(Nm("hang"), ev, s)
Next == /\ v = Running
        /\ Consume(c, l, Len(Case.evs), Judge(Case.evs[l], st), v, l', v', st')
        /\ UNCHANGED <<c, Pl>>
===============================================================================
