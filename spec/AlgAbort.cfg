SPECIFICATION Spec
CONSTANTS Handles = {1, 2} Polls = 2
INVARIANTS Right
