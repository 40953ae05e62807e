SPECIFICATION Spec
CONSTANTS MaxBatch=2 MaxBatches=3 Langs={"wasm","wasmMessagePack"}
INVARIANTS Whole NoBlame EmitInv
PROPERTIES AlwaysEnds
CHECK_DEADLOCK FALSE
