SPECIFICATION Spec
INVARIANTS Out InStep Deep Finished OnlyWhole Silent Trailing Section
