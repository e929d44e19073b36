SPECIFICATION Spec
CONSTANT Whims = 3
INVARIANTS OnePlace Conserved NoneStranded
CHECK_DEADLOCK FALSE
