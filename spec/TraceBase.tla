----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications.  Every recorded case is one      *)
(* initial state; each step consumes one recorded event of the case with the *)
(* action of the specification it names.  Verdicts are total: every case     *)
(* ends in exactly one OK or BAD line, BAD naming the clause that failed.    *)
EXTENDS Bytes, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Running == "run"
Verdict(kind, c, l, clause, detail) ==
  PrintT(kind \o " " \o ToString(Cases[c].id) \o " " \o ToString(l) \o " " \o clause \o " " \o ToString(detail))

(* one step of a trace specification: r is [clause, detail, st]; an empty    *)
(* clause accepts the event                                                  *)
Consume(c, l, n, r, v, lp, vp, stp) ==
  IF r.clause # "" THEN
    /\ Verdict("BAD", c, l, r.clause, r.detail)
    /\ vp = "bad" /\ lp = l /\ stp = r.st
  ELSE
    /\ lp = l + 1
    /\ stp = r.st
    /\ IF l = n THEN Verdict("OK", c, l, "", "") /\ vp = "ok" ELSE vp = v
Accept(st) == [clause |-> "", detail |-> "", st |-> st]
Reject(clause, detail, st) == [clause |-> clause, detail |-> detail, st |-> st]
=============================================================================
