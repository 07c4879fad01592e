SPECIFICATION Spec
INVARIANTS Out Rooted
