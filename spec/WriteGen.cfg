SPECIFICATION Spec
INVARIANTS Out Possible Named Returns
