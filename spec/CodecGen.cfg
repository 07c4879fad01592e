SPECIFICATION Spec
INVARIANTS Out Plain Inverse Harmless Shrinks Legal
