SPECIFICATION Spec
INVARIANTS Conforms
