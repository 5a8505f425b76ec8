----------------------------- MODULE MCBuffered -----------------------------
(* Implementation-shaped model of the buffered / decompressing reader over an *)
(* abstract compressed source, checked to refine Stream for every block size, *)
(* member layout and sequence of calls.  Behaviours are printed for replay.   *)
(*                                                                            *)
(* A source symbol is [o |-> output bytes, e |-> ends a member].              *)
EXTENDS Stream, Json, IOUtils, FiniteSets
Depth == atoi(IOEnv.DEPTH)
Wide == IOEnv.WIDE = "1"
A == 97
Datas == IF Wide THEN {<<>>, <<A>>, <<LF>>, <<A, LF>>, <<A, A, LF>>, <<A, LF, A>>, <<A, A, A, LF, A>>, <<A, LF, LF, A, A>>, <<A, A, A, A, A, A>>}
         ELSE {<<>>, <<A, A, A, LF, A>>, <<LF, A, A>>}
Blocks == IF Wide THEN 1..4 ELSE {1, 3}
Lens == IF Wide THEN {-1, 0, 1, 2, 3} ELSE {-1, 1, 3}

Hd == [o |-> <<>>, e |-> FALSE]
Tl == [o |-> <<>>, e |-> TRUE]
Sym(b) == [o |-> <<b>>, e |-> FALSE]
Plain(d) == [i \in 1..Len(d) |-> Sym(d[i])]
Member(d) == <<Hd>> \o Plain(d) \o <<Tl>>
RECURSIVE RawOf(_, _)
RawOf(ms, i) == IF i > Len(ms) THEN <<>> ELSE Member(ms[i]) \o RawOf(ms, i + 1)

Layouts ==
  [kind : {"none"}, ms : {<<d>> : d \in Datas}, errAt : {0}, all : {FALSE}]
  \cup [kind : {"plain"}, ms : {<<d>> : d \in Datas}, errAt : {1, 2}, all : {FALSE}]
  \cup [kind : {"gzip"}, ms : {<<d>> : d \in Datas} \cup {<<d, f>> : d, f \in Datas}, errAt : {0}, all : {FALSE, TRUE}]

VARIABLES cfg, bs, s, m, pos, ok, hist
vars == <<cfg, bs, s, m, pos, ok, hist>>

Raw == IF cfg.kind = "gzip" THEN RawOf(cfg.ms, 1) ELSE Plain(cfg.ms[1])
(* what is to be read: everything, or the current member *)
P == IF cfg.all THEN Concat(cfg.ms) ELSE IF m > Len(cfg.ms) THEN <<>> ELSE cfg.ms[m]

(* ---- implementation state: rp source position; buf; sd starting data;      *)
(* on/eof/unused: decompressor; fed: raw fed without output; n: bytes decoded *)
InitImpl(kind) == [rp |-> 0, buf |-> <<>>, sd |-> <<>>, on |-> kind # "none", eof |-> FALSE,
                   unused |-> <<>>, fed |-> <<>>, n |-> 0]
RECURSIVE OutOf(_, _)
OutOf(d, i) == IF i > Len(d) THEN <<>> ELSE d[i].o \o OutOf(d, i + 1)

EndIdx(d) == IF \E i \in 1..Len(d) : d[i].e THEN CHOOSE i \in 1..Len(d) : d[i].e /\ \A j \in 1..(i-1) : ~d[j].e ELSE 0
(* decompress: [t |-> new state, out |-> bytes] *)
Decompress(t, data) ==
  IF ~t.on THEN [t |-> t, out |-> OutOf(data, 1)]
  ELSE IF cfg.kind = "plain" THEN
    LET fed == t.fed \o data IN
    IF Len(fed) >= cfg.errAt
    THEN [t |-> [t EXCEPT !.on = FALSE, !.fed = <<>>], out |-> OutOf(fed, 1)]
    ELSE [t |-> [t EXCEPT !.fed = fed], out |-> <<>>]
  ELSE IF t.eof THEN [t |-> [t EXCEPT !.unused = t.unused \o data], out |-> <<>>]
  ELSE LET e == EndIdx(data) IN
    IF e = 0 THEN [t |-> t, out |-> OutOf(data, 1)]
    ELSE [t |-> [t EXCEPT !.eof = TRUE, !.unused = Slice(data, e + 1, Len(data))], out |-> OutOf(Slice(data, 1, e), 1)]
Process(t, data) ==
  IF data = <<>> THEN [t EXCEPT !.buf = <<>>]
  ELSE LET r == Decompress(t, data) IN [r.t EXCEPT !.buf = r.out, !.n = r.t.n + Len(r.out)]

NextMember(t) ==
  IF ~t.on \/ t.unused = <<>> THEN [t |-> t, ret |-> FALSE]
  ELSE [t |-> [t EXCEPT !.sd = t.unused, !.unused = <<>>, !.eof = FALSE, !.n = 0], ret |-> TRUE]
Empty(t) ==
  IF t.buf # <<>> THEN [t |-> t, ret |-> FALSE]
  ELSE [t |-> (IF cfg.all THEN NextMember(t).t ELSE t), ret |-> TRUE]
SrcRead(t) ==
  LET k == Min2(bs, Len(Raw) - t.rp) IN
  [t |-> [t EXCEPT !.rp = t.rp + k], data |-> Slice(Raw, t.rp + 1, t.rp + k)]
RECURSIVE Keep(_, _)
Keep(t, data) ==
  IF data # <<>> /\ t.on /\ Empty(t).ret
  THEN LET t1 == Empty(t).t IN
       IF t1.sd # <<>> THEN Keep(Process([t1 EXCEPT !.sd = <<>>], t1.sd), t1.sd)
       ELSE IF t1.unused # <<>> THEN t1
       ELSE LET r == SrcRead(t1) IN Keep(Process(r.t, r.data), r.data)
  ELSE t
Fill(t0) ==
  LET e == Empty(t0) IN
  IF ~e.ret THEN e.t
  ELSE IF Len(e.t.buf) + Len(e.t.unused) > 0 THEN e.t
  ELSE LET r == IF e.t.sd # <<>> THEN [t |-> [e.t EXCEPT !.sd = <<>>], data |-> e.t.sd] ELSE SrcRead(e.t)
       IN Keep(Process(r.t, r.data), r.data)

RECURSIVE ReadLoop(_, _, _)
ReadLoop(t, n, acc) ==
  IF n = 0 THEN [t |-> t, out |-> acc]
  ELSE LET f == Fill(t) IN LET e == Empty(f) IN
    IF e.ret THEN [t |-> e.t, out |-> acc]
    ELSE LET k == IF n < 0 THEN Len(e.t.buf) ELSE Min2(n, Len(e.t.buf)) IN
         ReadLoop([e.t EXCEPT !.buf = Drop(e.t.buf, k)], IF n < 0 THEN n ELSE n - k, acc \o Take(e.t.buf, k))
RECURSIVE LineLoop(_, _, _)
LineLoop(t, n, acc) ==
  IF EndsWith(acc, <<LF>>) \/ (n >= 0 /\ Len(acc) >= n) THEN [t |-> t, out |-> acc]
  ELSE LET f == Fill(t) IN LET e == Empty(f) IN
    IF e.ret THEN [t |-> e.t, out |-> acc]
    ELSE LET ln == LineAt(e.t.buf, 0, IF n < 0 THEN -1 ELSE n - Len(acc)) IN
         LineLoop([e.t EXCEPT !.buf = Drop(e.t.buf, Len(ln))], n, acc \o ln)

Init == /\ cfg \in Layouts /\ bs \in Blocks
        /\ s = InitImpl(cfg.kind) /\ m = 1 /\ pos = 0 /\ ok = TRUE /\ hist = <<>>
Do(op, n, r, expect) ==
  /\ s' = r.t
  /\ ok' = (r.out = expect)
  /\ pos' = pos + Len(expect)
  /\ hist' = Append(hist, [op |-> op, n |-> n])
  /\ UNCHANGED <<cfg, bs, m>>
DoRead == \E n \in Lens : Do("read", n, ReadLoop(s, n, <<>>), ReadAt(P, pos, n))
DoLine == \E n \in Lens \ {0} : Do("readline", n, LineLoop(s, n, <<>>), LineAt(P, pos, n))
(* the end of a member has been seen (a read returned nothing): next member *)
AtEnd == hist # <<>> /\ pos = Len(P) /\ s.buf = <<>> /\ s.unused # <<>>
DoNext == /\ cfg.kind = "gzip" /\ ~cfg.all /\ AtEnd
          /\ LET r == NextMember(s) IN
             /\ s' = r.t /\ ok' = (r.ret = (m < Len(cfg.ms)))
             /\ m' = m + 1 /\ pos' = 0
             /\ hist' = Append(hist, [op |-> "next", n |-> 0])
             /\ UNCHANGED <<cfg, bs>>
Next == ok /\ Len(hist) < Depth /\ (DoRead \/ DoLine \/ DoNext)

Refines == ok
(* nothing taken from the source is lost: what is still to come equals the rest *)
NothingLost == LET r == ReadLoop(s, -1, <<>>) IN r.out = Drop(P, pos)
Emit == (Len(hist) = Depth) => PrintT("SCN " \o ToJson([kind |-> cfg.kind, ms |-> cfg.ms, all |-> cfg.all, errAt |-> cfg.errAt, bs |-> bs, ops |-> hist]))
=============================================================================
