SPECIFICATION Spec
CONSTANTS L = 2 S = 2 E = 2 N = 20 OldBest = TRUE
INVARIANTS OnDisk TrainedOnOwn BestKept
PROPERTY Finishes
