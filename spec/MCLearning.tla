----------------------------- MODULE MCLearning -----------------------------
EXTENDS Integers, Sequences
CONSTANTS L, S, E, N, OldBest
VARIABLES li, si, fresh, recorded, disk, memory, epoch, model, models, best, matches, phase
M == INSTANCE Learning
Spec == M!Spec
OnDisk == M!OnDisk
TrainedOnOwn == M!TrainedOnOwn
BestKept == M!BestKept
Finishes == M!Finishes
=============================================================================
