SPECIFICATION Spec
INVARIANTS Accepted Conforms
