SPECIFICATION Spec
CONSTANTS NETS = {1, 2} POS = {1, 2} WEIGHTS = {0, 1, 2}
INVARIANTS OneFunction Answered SameWeightsSameAnswers
PROPERTY OnlyTrainingAndLoadingChange
CHECK_DEADLOCK FALSE
