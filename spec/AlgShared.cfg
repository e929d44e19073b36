SPECIFICATION Spec
CONSTANTS Clones = {1, 2, 3} Spurious = 0 Drops = 1
INVARIANTS OneAtATime
