------------------------------ MODULE Contract ------------------------------
(* What a user of an encoder may rely on, as a state machine over the calls that can be observed   *)
(* from outside: the calls of the API with their results, and the calls the encoder makes on the   *)
(* wrapped writer ("sink").  It is used twice: the implementation-shaped model EncoderApi emits     *)
(* these events and TLC checks that it never breaks a clause; ApiTrace feeds it the events recorded *)
(* from the real encoder.                                                                          *)
(*                                                                                                 *)
(* An event is <<op, n, ret, err, stream, sumhi, sumlo>>:                                           *)
(*   "n"  encoder created                                                                          *)
(*   "k"  sink call: n bytes offered, ret accepted (-1: error err)                                 *)
(*   "w"  write of n bytes, ret accepted       "f" flush    "x" finish    "d" dropped               *)
(*   "r"  reset; n is the stream of the returned sink   "o" one-shot function                      *)
(*   "stuck"  write made no progress at all in n attempts                                          *)
(*   "end"    the history ends with the encoder open    "m" memory, n KiB at most                  *)
(* ret -1: error, -2: panic, -3: endless loop.                                                     *)
(* err: "I" Interrupted, "B" WouldBlock, "E" other error of the sink, "Z" WriteZero, "?" another.   *)
EXTENDS Integers, Sequences, FiniteSets

Op(e) == e[1]  Arg(e) == e[2]  Ret(e) == e[3]  Err(e) == e[4]  Stream(e) == e[5]

Closers == {"f","x","d","r"}

\* st: current stream; acc, del: bytes accepted from the caller, delivered to the sink, per stream;
\* errs: what the sink answered in the current call, "0" standing for Ok(0);
\* zeros: sink calls without progress since a byte was accepted or delivered; closing: a reset
\* failed (the stream is complete as far as the caller is concerned); deferred: the last write
\* returned Ok although the sink failed; flushes: flush calls on the current stream.
CInit == [st |-> 1, acc |-> <<0>>, del |-> <<0>>, errs |-> {}, zeros |-> 0, closing |-> FALSE,
          deferred |-> FALSE, flushes |-> 0, over |-> FALSE]

Faults(c) == c.errs \ {"I"}

\* An error returned by a closing call (flush, finish, reset) must have been caused by the sink, and
\* Interrupted must be retried by them, as std::io::Write prescribes.
Explained(c,err) ==
  \/ err \in {"B","E"} /\ err \in c.errs
  \/ err = "Z" /\ "0" \in c.errs
WriteExplained(c,err) == err = "I" \/ Explained(c,err)

Clauses(c,e) ==
  LET op == Op(e) IN
  IF op = "k" THEN
       (IF Stream(e) # c.st THEN {"wrong-sink"} ELSE {})
    \cup (IF c.over THEN {"write-after-end"} ELSE {})
    \cup (IF Ret(e) = -3 THEN {"hang"} ELSE {})
  ELSE IF Ret(e) = -2 \/ op = "panic" THEN {"panic"}
  ELSE IF Ret(e) = -3 \/ op = "hang" THEN {"hang"}
  ELSE IF op = "w" THEN
       (IF Ret(e) > Arg(e) THEN {"over-accept"} ELSE {})
    \cup (IF Ret(e) = 0 /\ Arg(e) > 0 /\ ~c.closing THEN {"zero-accept"} ELSE {})
    \cup (IF Ret(e) = -1 /\ ~WriteExplained(c,Err(e)) THEN {"error-unexplained"} ELSE {})
    \cup (IF Ret(e) >= 0 /\ c.deferred /\ Faults(c) # {} THEN {"error-hidden"} ELSE {})
  ELSE IF op \in {"f","x","r"} THEN
       (IF Ret(e) = -1 /\ ~Explained(c,Err(e)) THEN {"error-unexplained"} ELSE {})
    \cup (IF op = "r" /\ Ret(e) = 0 /\ Arg(e) # c.st THEN {"wrong-sink"} ELSE {})
    \cup (IF Ret(e) = 0 /\ c.errs \cap {"B","E"} # {} THEN {"error-hidden"} ELSE {})
  ELSE IF op = "stuck" THEN (IF 2 * c.zeros < Arg(e) /\ ~c.closing THEN {"stuck"} ELSE {})
  ELSE IF op = "o" /\ Ret(e) < 0 THEN {"error-unexplained"}
  ELSE IF op = "m" THEN (IF Ret(e) < 0 THEN {"error-unexplained"}
                         ELSE IF Arg(e) > 1024 THEN {"memory"} ELSE {})
  ELSE {}

\* What the delivered bytes of the event's stream have to amount to now.
\*   "flush":    everything accepted, ending with an empty stored block at a byte boundary
\*   "drained":  the same without that block: the caller already tried to end the stream (a failed reset)
\*   "complete": the whole stream, and nothing else
\*   "prefix":   the beginning of a correct stream
Goal(c,e) ==
  LET op == Op(e) IN
  IF op = "f" /\ Ret(e) = 0 THEN IF c.closing THEN "drained" ELSE "flush"
  ELSE IF op \in {"x","r"} /\ Ret(e) = 0 THEN "complete"
  ELSE IF op = "o" /\ Ret(e) >= 0 THEN "complete"
  ELSE IF op = "d" /\ Ret(e) = 0 /\ Faults(c) = {} THEN "complete"
  ELSE IF op \in {"x","d","end"} /\ Ret(e) >= -1 THEN "prefix"
  ELSE "none"

CStep(c,e) ==
  LET op == Op(e) st == c.st IN
  IF op = "k" THEN
    [c EXCEPT !.del[st] = IF Ret(e) > 0 THEN @ + Ret(e) ELSE @,
              !.errs = @ \cup (IF Ret(e) < 0 THEN {Err(e)} ELSE IF Ret(e) = 0 /\ Arg(e) > 0 THEN {"0"} ELSE {}),
              !.zeros = IF Ret(e) > 0 THEN 0 ELSE IF Arg(e) > 0 THEN @ + 1 ELSE @]
  ELSE IF op = "w" THEN
    [c EXCEPT !.acc[st] = IF Ret(e) > 0 THEN @ + Ret(e) ELSE @,
              !.zeros = IF Ret(e) > 0 THEN 0 ELSE @,
              !.deferred = (Ret(e) >= 0 /\ Faults(c) # {}),
              !.errs = {}]
  ELSE IF op = "f" THEN [c EXCEPT !.errs = {}, !.deferred = FALSE, !.flushes = @ + 1]
  ELSE IF op = "r" THEN
    IF Ret(e) = 0 THEN [c EXCEPT !.st = st+1, !.acc = Append(@,0), !.del = Append(@,0), !.errs = {},
                                 !.closing = FALSE, !.deferred = FALSE, !.flushes = 0]
    ELSE [c EXCEPT !.errs = {}, !.closing = TRUE, !.deferred = FALSE]
  ELSE IF op \in {"x","d"} THEN [c EXCEPT !.errs = {}, !.over = TRUE]
  ELSE IF op = "o" /\ Ret(e) >= 0 THEN [c EXCEPT !.acc[st] = Arg(e), !.del[st] = Ret(e), !.over = TRUE]
  ELSE c
=============================================================================
