-------------------------- MODULE MultistageTrace --------------------------
(* Recorded runs of the real generator. Element values are numbered; `got` holds get(i) for i = 0..max, `beyond`
   triples <<index, fallback, answer>> for indices behind the maximum (index 0 standing for a huge one).
   pod: the element type is compared by value, so equal blocks are always recognised. *)
EXTENDS Multistage, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
OK(r) ==
  IF r.threw
  THEN IF r.pod THEN Overflows(r.src, r.b, r.cap1, r.cap2)
       ELSE Len(r.src) \div r.b > r.cap1 \/ Cardinality(Values(r.src)) > r.cap2
  ELSE /\ Represents(r.s1, r.s2, r.s3, r.b, r.src)
       /\ Len(r.got) = r.max + 1
       /\ \A i \in DOMAIN r.got : r.got[i] = Answer(r.src, r.max, i - 1, 0)
       /\ \A j \in DOMAIN r.beyond : r.beyond[j][2] = r.src[r.beyond[j][1] + 1]
VARIABLES tid, l
Init == tid = 0 /\ l \in 1..64
Next == tid = 0 /\ \E t \in DOMAIN Traces : t % 64 = l - 1 /\ tid' = t /\ UNCHANGED l
Conform == tid = 0 \/ OK(Traces[tid])
=============================================================================
