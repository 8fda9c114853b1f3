CONSTANTS Objs = {1, 2, 3}
MaxKids = 2
Later = 1
SPECIFICATION Spec
INVARIANTS Kept Whole Once Again
CHECK_DEADLOCK FALSE
