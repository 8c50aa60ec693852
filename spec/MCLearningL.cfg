SPECIFICATION Spec
CONSTANTS L = 3 S = 2 E = 1 N = 20 OldBest = TRUE
INVARIANTS OnDisk TrainedOnOwn BestKept
PROPERTY Finishes
