SPECIFICATION Spec
CONSTANTS Rounds = 3 Whims = 3
INVARIANTS Exclusive Boxes Clean
