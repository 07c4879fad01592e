SPECIFICATION Spec
INVARIANTS Conforms InStep Bounded Closed
