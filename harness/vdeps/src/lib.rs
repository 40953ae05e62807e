// Pins the dependency and feature set of the pre-built tree, so that its artifacts are reused.
