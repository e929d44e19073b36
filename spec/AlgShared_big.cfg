SPECIFICATION Spec
CONSTANTS Clones = {1, 2, 3} Spurious = 1 Drops = 1
INVARIANTS OneAtATime
