SPECIFICATION Spec
CONSTANTS S = 2 M = 2 Buffer = 0 Closes = 0
INVARIANTS Ordered Bound EndComplete
