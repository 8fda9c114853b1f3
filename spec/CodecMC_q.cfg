CONSTANTS Objs = {1, 2}
MaxKids = 2
Later = 2
SPECIFICATION Spec
INVARIANTS Kept Whole Once Again
CHECK_DEADLOCK FALSE
