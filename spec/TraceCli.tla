------------------------------- MODULE TraceCli -------------------------------
(* C11, C15, C19, C22: recorded runs of the commands, and of copying records.       *)
(* case: [id, prop, files, env, algs, codes, evs]; file: [name, there, segs]       *)
(* events: index      [ins, fields, lines, exc]                                   *)
(*         extract    [file, k, off, mode, out, exc]                              *)
(*         check      [ins, verbose, code, says, odd]                             *)
(*         recompress [file (0: the last output), segs, count, code]              *)
(*         copy       [file, opt, mods, filter, gzip, n: records read, sel: those   *)
(*                    copied, segs, exc]                                           *)
EXTENDS TraceBase, Cli, FiniteSets
VARIABLES c, l, v, st, Pl
View == <<c, l, v>>
Case == Cases[c]
Nm(x) == Case.prop \o "." \o x
(* readings that several events need *)
Plan(cs) == [plain |-> [i \in 1..Len(cs.files) |-> IF cs.prop \in {"C15", "C19"} THEN ReadAll(cs.files[i].segs, DefaultOpt) ELSE [recs |-> <<>>, end |-> "end"]]]
Init == /\ c \in 1..Len(Cases) /\ l = 1 /\ v = Running /\ Pl = Plan(Cases[c]) /\ st = [out |-> <<>>]

(* ---- index *)
RECURSIVE WantLines(_, _, _)
WantLines(ev, i, opt) ==
  IF i > Len(ev.ins) THEN <<>>
  ELSE LET f == Case.files[ev.ins[i]]
           r == ReadAll(f.segs, opt).recs
       IN [k \in 1..Len(r) |-> LineFrom(ev.fields, 1, r[k], f.name)] \o WantLines(ev, i + 1, opt)
JudgeIndex(ev, s) ==
  LET want == WantLines(ev, 1, IndexOpt(ev.fields))
      B == {i \in 1..Min2(Len(want), Len(ev.lines)) : ~SameLine(want[i], ev.lines[i])}
  IN IF ev.exc # "" THEN Reject(Nm("index-exception"), ev, s)
     ELSE IF ev.odd THEN Reject(Nm("index-lines"), ev, s)
     ELSE IF B # {} THEN Reject(Nm("index-fields"), <<First(B), "got", ev.lines[First(B)], "want", want[First(B)]>>, s)
     ELSE IF Len(want) # Len(ev.lines) THEN Reject(Nm("index-count"), <<Len(ev.lines), Len(want), ev>>, s)
     ELSE Accept(s)

(* ---- extract *)
JudgeExtract(ev, s) ==
  LET f == Case.files[ev.file]
      R == Pl.plain[ev.file].recs
      r == R[ev.k]
      want == Extracted(f.segs, r, ev.mode, Case.codes)
  IN IF ev.k > Len(R) THEN Reject(Nm("index-count"), ev, s)
     ELSE IF ev.off # NumText(r.off) THEN Reject(Nm("index-offset"), <<ev.off, NumText(r.off)>>, s)
     ELSE IF ev.exc # "" THEN Reject(Nm("extract-exception"), ev, s)
     ELSE IF ev.mode # "payload" /\ r.fmt = "arc" THEN Accept(s)
     ELSE IF ev.mode = "payload" /\ Decoded(Case.codes, r, Content(f.segs, r)).pre THEN Accept(s)
     ELSE IF ev.mode = "payload" /\ Decoded(Case.codes, r, Content(f.segs, r)).post THEN
        (IF IsPrefixOf(want, ev.out) THEN Accept(s) ELSE Reject(Nm("extract-payload"), <<"got", ev.out, "want first", want>>, s))
     ELSE IF ev.out # want THEN Reject(Nm("extract-" \o ev.mode), <<"got", ev.out, "want", want>>, s)
     ELSE Accept(s)

(* ---- check *)
Broken(i) == ~Case.files[i].there \/ Pl.plain[i].end # "end"
WantSays(ev, i) == Report(Case.files[i].segs, Pl.plain[i].recs, Case.env, Case.algs, ev.verbose)
(* does what is said about file i fit?  in a broken file the record before the   *)
(* problem may be left out                                                        *)
SameEntry(w, g) == g.off = w.off /\ (w.id = None \/ g.id = w.id) /\ g.say = w.say
Fine(ev, i, g) ==
  LET w == WantSays(ev, i)
      n == Len(g.entries)
  IN /\ IF Broken(i) THEN n \in {Len(w), Len(w) - 1} ELSE n = Len(w)
     /\ \A k \in 1..Min2(n, Len(w)) : SameEntry(w[k], [off |-> g.entries[k].off, id |-> g.entries[k].id, say |-> {g.entries[k].say[j] : j \in 1..Len(g.entries[k].say)}])
     /\ g.broken = Broken(i)
NothingSaid == [entries |-> <<>>, broken |-> FALSE]
SaidOf(ev, i) == LET S == {k \in 1..Len(ev.says) : ev.says[k].file = i} IN IF S = {} THEN NothingSaid ELSE ev.says[First(S)]
JudgeCheck(ev, s) ==
  LET ins == {ev.ins[k] : k \in 1..Len(ev.ins)}
      bad == {i \in ins : ~Fine(ev, i, SaidOf(ev, i))}
      wrong == \E i \in ins : Broken(i) \/ \E k \in 1..Len(Pl.plain[i].recs) :
                  VerdictOf(Case.files[i].segs, Pl.plain[i].recs[k], DefaultOpt, Case.env, Case.algs).v = "fail"
      i == First(bad)
      env == \E i2 \in ins : ~Broken(i2) /\ \E k \in 1..Len(Pl.plain[i2].recs) :
                  VerdictOf(Case.files[i2].segs, Pl.plain[i2].recs[k], DefaultOpt, Case.env, Case.algs).v = "env"
  IN IF env THEN Reject("machinery-env", ev, s)
     ELSE IF ev.exc # "" THEN Reject(Nm("exception"), ev, s)
     ELSE IF (ev.code = 0) = wrong THEN Reject(Nm("exit-status"), <<ev, wrong>>, s)
     ELSE IF ev.odd THEN Reject(Nm("other-output"), ev, s)
     ELSE IF bad # {} THEN Reject(Nm("report"), <<"file", i, "got", SaidOf(ev, i), "want", WantSays(ev, i), Broken(i)>>, s)
     ELSE Accept(s)

(* ---- recompress *)
RECURSIVE JudgeOut(_, _, _, _, _)
JudgeOut(ev, src, recs, k, s) ==
  IF k > Len(recs) THEN Accept([s EXCEPT !.out = ev.segs])
  ELSE LET r == recs[k]
           w == Rewritten(src, r, Case.env)
           g == ev.segs[k]
           in == [given |-> r.hdrs, proto |-> r.proto]
           q == WrittenAs(g.text, 0, WarcTypes, in, w.block, w.hdrs, ev)
           \* the digests must still be those of the record
           v0 == VerdictOf(src, r, RecompOpt, Case.env, Case.algs).v
           again == ReadAll(<<g>>, RecompOpt).recs
           v1 == IF Len(again) = 1 THEN VerdictOf(<<g>>, again[1], RecompOpt, Case.env, Case.algs).v ELSE "none"
       IN IF ~g.gz \/ (q.clause = "" /\ q.next # Len(g.text)) THEN Reject(Nm("one-member-each"), <<k, g>>, s)
          ELSE IF q.clause # "" THEN Reject(Nm(q.clause), <<k, "got", g.text, "want", w>>, s)
          ELSE IF "env" \in {v0, v1} THEN Reject("machinery-env", <<k, v0, v1>>, s)
          ELSE IF v0 # "fail" /\ v1 = "fail" THEN Reject(Nm("digest-stale"), <<k, r>>, s)
          ELSE IF Len(again) # 1 THEN Reject(Nm("reads-back"), <<k, again>>, s)
          ELSE JudgeOut(ev, src, recs, k + 1, s)
JudgeRecompress(ev, s) ==
  LET f == IF ev.file = 0 THEN [there |-> TRUE, segs |-> s.out] ELSE Case.files[ev.file]
      rd == Readable(f.segs)
  IN IF ~f.there \/ ~rd.ok THEN (IF ev.code # 0 THEN Accept(s) ELSE Reject(Nm("must-fail"), ev, s))
     ELSE IF ev.code # 0 THEN Reject(Nm("fails"), <<ev, Len(rd.recs)>>, s)
     ELSE IF ev.count # Len(rd.recs) THEN Reject(Nm("count"), <<ev.count, Len(rd.recs)>>, s)
     ELSE IF Len(ev.segs) # Len(rd.recs) THEN Reject(Nm("one-member-each"), <<Len(ev.segs), Len(rd.recs)>>, s)
     ELSE IF ev.file = 0 /\ \E k \in 1..Len(ev.segs) : ev.segs[k].text # s.out[k].text THEN Reject(Nm("again"), <<ev.segs, s.out>>, s)
     ELSE JudgeOut(ev, rd.segs, rd.recs, 1, s)

(* ---- records copied from an iterator to a writer *)
RECURSIVE JudgeCopies(_, _, _, _, _, _)
(* k-th of the records copied; its text begins at pos *)
JudgeCopies(ev, src, recs, k, pos, s) ==
  IF k > Len(ev.sel) THEN
     IF ~ev.gzip /\ ev.segs # <<>> /\ pos # Len(ev.segs[1].text) THEN Reject(Nm("extra-output"), <<pos, ev.segs>>, s) ELSE Accept(s)
  ELSE LET r == Modded(recs[ev.sel[k]], ev.mods, 1)
           w == Copied(src, r, ev.opt, ev.filter, Case.env)
           g == IF ev.gzip THEN ev.segs[k] ELSE ev.segs[1]
           q == WrittenAs(g.text, pos, WarcTypes, [given |-> r.hdrs, proto |-> r.proto], w.block, w.hdrs, ev)
       IN IF g.gz # ev.gzip \/ (ev.gzip /\ q.clause = "" /\ q.next # Len(g.text)) THEN Reject(Nm("one-member-each"), <<k, g>>, s)
          ELSE IF q.clause # "" THEN Reject(Nm(q.clause), <<k, "got", Drop(g.text, pos), "want", w>>, s)
          ELSE JudgeCopies(ev, src, recs, k + 1, IF ev.gzip THEN 0 ELSE q.next, s)
JudgeCopy(ev, s) ==
  LET src == Case.files[ev.file].segs
      rd == ReadAll(src, ev.opt)
  IN IF ev.n # Len(rd.recs) THEN Reject(Nm("count"), <<ev.n, Len(rd.recs), ev.exc>>, s)
     ELSE IF (ev.exc = "") # (rd.end = "end") THEN Reject(Nm("exception"), <<ev.exc, rd.end>>, s)
     ELSE IF Len(ev.segs) # (IF ev.gzip THEN Len(ev.sel) ELSE Min2(1, Len(ev.sel))) THEN Reject(Nm("one-member-each"), <<Len(ev.segs), ev.sel>>, s)
     ELSE JudgeCopies(ev, src, rd.recs, 1, 0, s)

Judge(ev, s) == CASE ev.op = "index" -> JudgeIndex(ev, s)
                  [] ev.op = "extract" -> JudgeExtract(ev, s)
                  [] ev.op = "check" -> JudgeCheck(ev, s)
                  [] ev.op = "recompress" -> JudgeRecompress(ev, s)
                  [] ev.op = "copy" -> JudgeCopy(ev, s)
Next == /\ v = Running
        /\ Consume(c, l, Len(Case.evs), Judge(Case.evs[l], st), v, l', v', st')
        /\ UNCHANGED <<c, Pl>>
===============================================================================
