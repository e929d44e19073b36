SPECIFICATION Spec
CONSTANTS Tasks = {1, 2} Spurious = 1
INVARIANTS Once AllOut
