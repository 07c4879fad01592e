SPECIFICATION Spec
INVARIANTS Conforms Stacked Within
