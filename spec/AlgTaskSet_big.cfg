SPECIFICATION Spec
CONSTANTS Tasks = {1, 2, 3} Spurious = 0
INVARIANTS Once AllOut
