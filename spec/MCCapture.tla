------------------------------- MODULE MCCapture -------------------------------
(* Threads that enter and leave captures, open connections and do exchanges over   *)
(* new or kept connections; each target has a lock under which a pair of records   *)
(* is written in two steps.  All interleavings up to DEPTH actions are explored;    *)
(* complete ones are emitted as schedules for the real code.                        *)
EXTENDS Capture, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
NT == atoi(IOEnv.THREADS)
MaxX == atoi(IOEnv.EXS)
MaxC == atoi(IOEnv.CTXS)
Targets == 1..2
Threads == 1..NT

VARIABLES stack, ctxs, conns, exs, lock, log, h
vars == <<stack, ctxs, conns, exs, lock, log, h>>
Init == /\ stack = [t \in Threads |-> <<>>] /\ ctxs = <<>> /\ conns = <<>> /\ exs = <<>>
        /\ lock = [k \in Targets |-> 0] /\ log = [k \in Targets |-> <<>>] /\ h = <<>>
Act(x) == h' = Append(h, x)
(* threads begin in order; targets are used in order *)
Begun(t) == \E i \in 1..Len(h) : h[i][2] = t
May(t) == (t = 1 \/ Begun(t - 1)) /\ ~\E i \in 1..Len(exs) : exs[i].t = t /\ exs[i].st \in {"writing", "waiting"}
Enter(t, k) ==
  /\ May(t) /\ Len(ctxs) < MaxC /\ Len(stack[t]) < 2
  /\ k = 1 \/ \E i \in 1..Len(ctxs) : ctxs[i].target = 1
  /\ ctxs' = Append(ctxs, [t |-> t, target |-> k, open |-> TRUE])
  /\ stack' = Push(stack, t, Len(ctxs) + 1)
  /\ Act(<<"enter", t, Len(ctxs) + 1, k>>) /\ UNCHANGED <<conns, exs, lock, log>>
Exit(t) ==
  /\ May(t) /\ stack[t] # <<>>
  /\ LET c == Top(stack, t) IN ctxs' = [ctxs EXCEPT ![c].open = FALSE]
  /\ stack' = Pop(stack, t)
  /\ Act(<<"exit", t>>) /\ UNCHANGED <<conns, exs, lock, log>>
Idle(c) == \A i \in 1..Len(exs) : exs[i].conn = c => exs[i].st = "done"
NewX(t, c, ctx) == Append(exs, [t |-> t, conn |-> c, st |-> "sent", due |-> ctx # 0 /\ ctxs[ctx].open, mine |-> ctx])
SendNew(t) ==
  /\ May(t) /\ Len(exs) < MaxX
  /\ conns' = Append(conns, [t |-> t, ctx |-> Top(stack, t)])
  /\ exs' = NewX(t, Len(conns) + 1, Top(stack, t))
  /\ Act(<<"send", t, Len(exs) + 1, Len(conns) + 1>>) /\ UNCHANGED <<stack, ctxs, lock, log>>
SendKept(t, c) ==
  /\ May(t) /\ Len(exs) < MaxX /\ conns[c].t = t /\ Idle(c)
  /\ exs' = NewX(t, c, conns[c].ctx)
  /\ Act(<<"send", t, Len(exs) + 1, c>>) /\ UNCHANGED <<stack, ctxs, conns, lock, log>>
Target(i) == ctxs[exs[i].mine].target
(* an exchange outside of any capture; or one whose capture is over, which may or   *)
(* may not be recorded                                                              *)
FinishNone(i) ==
  /\ exs[i].st = "sent" /\ May(exs[i].t)
  /\ IF exs[i].mine = 0 THEN TRUE ELSE ~ctxs[exs[i].mine].open
  /\ exs' = [exs EXCEPT ![i].st = "done", ![i].due = FALSE]
  /\ Act(<<"finish", exs[i].t, i>>) /\ UNCHANGED <<stack, ctxs, conns, lock, log>>
(* the first record is written *)
FinishFirst(i) ==
  /\ exs[i].st = "sent" /\ May(exs[i].t) /\ exs[i].mine # 0 /\ ctxs[exs[i].mine].open
  /\ IF lock[Target(i)] = 0
     THEN /\ lock' = [lock EXCEPT ![Target(i)] = i]
          /\ log' = [log EXCEPT ![Target(i)] = Append(@, <<i, "response">>)]
          /\ exs' = [exs EXCEPT ![i].st = "writing"]
     ELSE /\ exs' = [exs EXCEPT ![i].st = "waiting"] /\ UNCHANGED <<lock, log>>
  /\ Act(<<IF lock[Target(i)] = 0 THEN "begin" ELSE "wait", exs[i].t, i>>) /\ UNCHANGED <<stack, ctxs, conns>>
Orders(W) == {o \in [1..Cardinality(W) -> W] : \A x, y \in 1..Cardinality(W) : x # y => o[x] # o[y]}
RECURSIVE Both(_)
Both(o) == IF o = <<>> THEN <<>> ELSE << <<Head(o), "response">>, <<Head(o), "request">> >> \o Both(Tail(o))
(* the second; those who wait for the lock go on, in any order *)
FinishSecond(i) ==
  /\ exs[i].st = "writing"
  /\ LET k == Target(i)
         W == {j \in 1..Len(exs) : exs[j].st = "waiting" /\ Target(j) = k}
     IN \E o \in Orders(W) :
        /\ log' = [log EXCEPT ![k] = Append(@, <<i, "request">>) \o Both(o)]
        /\ exs' = [x \in 1..Len(exs) |-> IF x = i \/ x \in W THEN [exs[x] EXCEPT !.st = "done"] ELSE exs[x]]
        /\ lock' = [lock EXCEPT ![k] = 0]
  /\ Act(<<"end", exs[i].t, i>>) /\ UNCHANGED <<stack, ctxs, conns>>
Next == /\ Len(h) < Depth
        /\ \/ \E t \in Threads : (\E k \in Targets : Enter(t, k)) \/ Exit(t) \/ SendNew(t)
                                 \/ (\E c \in 1..Len(conns) : SendKept(t, c))
           \/ \E i \in 1..Len(exs) : FinishNone(i) \/ FinishFirst(i) \/ FinishSecond(i)

(* ---- what is wanted *)
(* the records of a pair lie side by side *)
Pairs == \A k \in Targets : \A n \in 1..Len(log[k]) :
           IF n % 2 = 1 THEN log[k][n][2] = "response" ELSE log[k][n] = <<log[k][n-1][1], "request">>
(* every exchange that began and ended in an open capture is recorded there, once;  *)
(* and no other                                                                     *)
Count(k, i) == Cardinality({n \in 1..Len(log[k]) : log[k][n] = <<i, "request">>})
Attribution == \A i \in 1..Len(exs) : \A k \in Targets :
   exs[i].st = "done" => Count(k, i) = IF exs[i].mine # 0 /\ exs[i].due /\ ctxs[exs[i].mine].target = k THEN 1 ELSE 0
Thread == \A i \in 1..Len(exs) : exs[i].mine # 0 => ctxs[exs[i].mine].t = exs[i].t
Complete == /\ exs # <<>> /\ \A i \in 1..Len(exs) : exs[i].st = "done"
            /\ \A t \in Threads : stack[t] = <<>>
Shown == Complete => PrintT("SCN " \o ToJson([h |-> h]))
===============================================================================
