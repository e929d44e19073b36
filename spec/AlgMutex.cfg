SPECIFICATION Spec
CONSTANTS Tasks = {1, 2, 3} Rounds = 1 GiveUps = 2
INVARIANTS Exclusive BitTrue
