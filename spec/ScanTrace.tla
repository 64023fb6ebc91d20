------------------------------ MODULE ScanTrace ------------------------------
(* A trace is a history of calls with one scanner state: [bytes, max, count, start, end, next, ev]; `fresh`: the
   caller started over before the call. *)
EXTENDS Scan, ScanClasses, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st, ok
Init == tid \in DOMAIN Traces /\ l = 0 /\ st = Fresh /\ ok = TRUE
Next == /\ l < Len(Traces[tid].calls)
        /\ LET c == Traces[tid].calls[l + 1]
               r == Call(IF c.fresh THEN Fresh ELSE st, c.bytes, c.max)
           IN /\ st' = r.st
              /\ ok' = /\ r.cnt = c.count /\ r.start = c.start /\ r.end = c.end /\ r.next = c.next /\ r.ev = c.ev
        /\ l' = l + 1
        /\ UNCHANGED tid
Conform == ok
=============================================================================
