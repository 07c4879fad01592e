SPECIFICATION Spec
INVARIANTS Conforms Depth
