--------------------------------- MODULE Capture -------------------------------
(* Captures: per thread a stack of the contexts it is in; a connection belongs to  *)
(* the context that its thread is in when it is opened, an exchange to that of its  *)
(* connection.  An exchange must be recorded if that context is open from its        *)
(* beginning to its end; it may be, in the target of that context only, if the       *)
(* context ends before.                                                              *)
EXTENDS Naturals, Sequences, FiniteSets
Push(stack, t, c) == [stack EXCEPT ![t] = Append(@, c)]
Pop(stack, t) == [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
Top(stack, t) == IF stack[t] = <<>> THEN 0 ELSE stack[t][Len(stack[t])]
===============================================================================
