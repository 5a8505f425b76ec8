---------------------------- MODULE MCTimestamp ----------------------------
(* Laws of the conversions: chains of conversions between all forms keep the  *)
(* date (to the second, or the microsecond while only ISO with micros is       *)
(* used), results are valid, conversions are monotone.  Chains are printed.    *)
EXTENDS Timestamp, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Years == {1900, 1969, 1970, 2000, 2004, 2013, 2038, 2100, 2400, 2999}
Md == {<<1, 1>>, <<2, 28>>, <<3, 1>>, <<9, 9>>, <<12, 31>>}
Hms == {<<0, 0, 0>>, <<23, 59, 59>>, <<10, 9, 8>>}
Us == {0, 1, 456789, 100000}
Dates == {<<y, md[1], md[2], t[1], t[2], t[3], u>> : y \in Years, md \in Md, t \in Hms, u \in Us}
         \cup {<<y, 2, DaysIn(y, 2), 23, 59, 59, 999999>> : y \in Years}
Forms == {"ts", "iso", "http", "sec"}
VARIABLES d0, form, val, hist
Init == d0 \in Dates /\ form = "dt" /\ val = d0 /\ hist = <<"dt">>
FromForm(f, x) ==
  CASE f = "dt" -> x [] f = "ts" -> FromTimestamp(x) [] f \in {"iso", "isou"} -> FromIso(x)
    [] f = "http" -> FromHttp(x) [] f = "sec" -> FromEpoch(x)
ToForm(f, d) ==
  CASE f = "dt" -> d [] f = "ts" -> Timestamp14(d) [] f = "iso" -> Iso(d) [] f = "isou" -> IsoMicros(d)
    [] f = "http" -> HttpDate(d) [] f = "sec" -> ToEpoch(d)
(* the conversions the library offers *)
Edge(f, g) == \/ f = "dt" /\ g \in {"ts", "iso", "isou", "http"}
              \/ g = "dt" /\ f \in {"ts", "iso", "isou", "http"}
              \/ f = "ts" /\ g \in {"iso", "http", "sec"}
              \/ g = "ts" /\ f \in {"iso", "isou", "http", "sec"}
Next == Len(hist) <= Depth /\ \E g \in Forms \cup {"dt", "isou"} :
   Edge(form, g) /\ form' = g /\ val' = ToForm(g, FromForm(form, val)) /\ hist' = Append(hist, g) /\ UNCHANGED d0
Coarse == \E i \in 1..Len(hist) : hist[i] \notin {"dt", "isou"}
Preserved == FromForm(form, val) = (IF Coarse THEN Sec(d0) ELSE d0)
ValidDate == Valid(FromForm(form, val))
OffsetInv == Len(hist) = 1 => \A o \in {-1439, -60, 0, 1, 330, 840} :
   LET u == InUtc(d0, o) IN
   /\ Valid(u) /\ InUtc(u, -o) = d0 /\ u[7] = d0[7]
   /\ (ToEpoch(d0)[1] - ToEpoch(u)[1]) * 86400 + ToEpoch(d0)[2] - ToEpoch(u)[2] = o * 60
EpochInv == FromEpoch(ToEpoch(d0)) = Sec(d0)
(* to the first or last second of each day of the same year, both ways *)
Near == {<<d0[1], md[1], md[2], t[1], t[2], t[3], 0>> : md \in Md, t \in {<<0, 0, 0>>, <<23, 59, 59>>}}
MonotoneTo(a, b) == Le(Timestamp14(a), Timestamp14(b)) /\ Le(Iso(a), Iso(b)) /\ Le(ToEpoch(a), ToEpoch(b))
Monotone == Len(hist) = 1 /\ d0[7] = 0 => \A e \in Near : IF Le(d0, e) THEN MonotoneTo(d0, e) ELSE MonotoneTo(e, d0)
Prefixes == Len(hist) = 1 =>
   /\ \A k \in 0..14 : Valid(FromTimestamp(Slice(Timestamp14(d0), 1, k)))
   /\ \A k \in {0, 4, 6, 8, 10, 12, 14} : Le(Sec(d0), FromTimestamp(Slice(Timestamp14(d0), 1, k)))
Emit == Len(hist) = Depth + 1 => PrintT("SCN " \o ToJson([d |-> d0, path |-> hist]))
=============================================================================
