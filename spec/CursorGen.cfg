SPECIFICATION Spec
INVARIANTS Out Stacked Within
