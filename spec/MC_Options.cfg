SPECIFICATION Spec
CONSTANT Variant = "none"
INVARIANTS Table OneAtATime NeverAnotherOne
CHECK_DEADLOCK FALSE
