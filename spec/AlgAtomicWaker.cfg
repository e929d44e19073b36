SPECIFICATION FairSpec
CONSTANTS Wakers = {1, 2, 3} Rounds = 2
INVARIANTS CellExclusive StateOK
PROPERTY Live
