SPECIFICATION Spec
CONSTANTS S = 2 M = 3 Buffer = 1 Closes = 1
INVARIANTS Ordered Bound EndComplete
