SPECIFICATION Spec
INVARIANTS Out Styles
