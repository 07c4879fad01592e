SPECIFICATION Spec
INVARIANTS Out Sane
