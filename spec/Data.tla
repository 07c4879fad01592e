-------------------------------- MODULE Data --------------------------------
(* Data from outside, read once: the type definitions (file TYPES), cases  *)
(* to decide (file CASES, one JSON value per line) and constants of the    *)
(* specification that have no notation in TLA+ (file CONSTANTS).           *)
EXTENDS Naturals, Sequences, TLC, IOUtils, Json

ASSUME /\ TLCSet(1, JsonDeserialize(IOEnv.TYPES))
       /\ TLCSet(2, ndJsonDeserialize(IOEnv.CASES))
       /\ TLCSet(3, JsonDeserialize(IOEnv.CONSTANTS))
(* Comparing values brings them in normal form. TLC would do so when they  *)
(* are used first, and by several workers at once.                         *)
ASSUME /\ TLCGet(1) = JsonDeserialize(IOEnv.TYPES)
       /\ TLCGet(2) = ndJsonDeserialize(IOEnv.CASES)
       /\ TLCGet(3) = JsonDeserialize(IOEnv.CONSTANTS)

Types == TLCGet(1)       \* type definitions by name
Cases == TLCGet(2)
Constants == TLCGet(3)
=============================================================================
