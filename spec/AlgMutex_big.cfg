SPECIFICATION Spec
CONSTANTS Tasks = {1, 2, 3} Rounds = 2 GiveUps = 1
INVARIANTS Exclusive BitTrue
