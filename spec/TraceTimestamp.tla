--------------------------- MODULE TraceTimestamp ---------------------------
(* C18: recorded conversions against Timestamp.tla.                            *)
(* event: [fn, inp, off, out, aware, exc, lo, hi]; inp/out: text, date or epoch; *)
(* off: minutes east of UTC of a date that is given                              *)
EXTENDS TraceBase, Timestamp
VARIABLES c, l, v, st
View == <<c, l, v>>
Case == Cases[c]
Init == c \in 1..Len(Cases) /\ l = 1 /\ v = Running /\ st = 0

Expect(ev) ==
  CASE ev.fn = "ts2dt" -> FromTimestamp(ev.inp)
    [] ev.fn = "iso2dt" -> FromIso(ev.inp)
    [] ev.fn = "http2dt" -> FromHttp(ev.inp)
    [] ev.fn = "dt2ts" -> Timestamp14(InUtc(ev.inp, ev.off))
    [] ev.fn = "dt2iso" -> Iso(InUtc(ev.inp, ev.off))
    [] ev.fn = "dt2isou" -> IsoMicros(InUtc(ev.inp, ev.off))
    [] ev.fn = "dt2http" -> HttpDate(InUtc(ev.inp, ev.off))
    [] ev.fn = "ts2iso" -> Iso(FromTimestamp(ev.inp))
    [] ev.fn = "ts2http" -> HttpDate(FromTimestamp(ev.inp))
    [] ev.fn = "ts2sec" -> ToEpoch(FromTimestamp(ev.inp))
    [] ev.fn = "sec2ts" -> Timestamp14(FromEpoch(ev.inp))
    [] ev.fn = "iso2ts" -> Timestamp14(FromIso(ev.inp))
    [] ev.fn = "http2ts" -> Timestamp14(FromHttp(ev.inp))

(* parts of a timestamp that are neither all digits nor contain a letter: any valid date will do *)
Odd(s) == \E i \in 1..Len(s) : ~IsDigit(s[i]) /\ s[i] \notin 97..122 /\ s[i] \notin 65..90
(* now, as a timestamp: between the dates taken before and after *)
NowOk(ev) == LET t == Slice(ev.out, 1, 14) IN
  /\ Len(ev.out) = (IF ev.fn = "now20" THEN 20 ELSE 14) /\ \A i \in 1..Len(ev.out) : IsDigit(ev.out[i])
  /\ Le(Timestamp14(FromEpoch(ev.lo)), t) /\ Le(t, Timestamp14(FromEpoch(ev.hi)))

Judge(ev, s) ==
  IF ev.exc # "" THEN Reject("C18.no-exception", ev, s)
  ELSE IF ev.fn \in {"now", "now20"} THEN IF NowOk(ev) THEN Accept(s) ELSE Reject("C18.now", ev, s)
  ELSE IF ev.fn = "order" THEN IF Le(ev.inp, ev.out) THEN Accept(s) ELSE Reject("C18.monotone", ev, s)
  ELSE IF ev.fn = "ts2dt" /\ ~Valid(ev.out) THEN Reject("C18.valid-date", ev, s)
  ELSE IF ev.fn = "ts2dt" /\ Odd(ev.inp) THEN Accept(s)
  ELSE IF ev.out # Expect(ev) THEN Reject("C18." \o ev.fn, <<ev, "expected", Expect(ev)>>, s)
  ELSE IF ev.fn \in {"ts2dt", "iso2dt", "http2dt"} /\ ev.aware # ev.want THEN Reject("C18.time-zone-aware", ev, s)
  ELSE Accept(s)

Next == /\ v = Running
        /\ Consume(c, l, Len(Case.evs), Judge(Case.evs[l], st), v, l', v', st')
        /\ UNCHANGED c
=============================================================================
