---------------------------- MODULE MCTrainPass ----------------------------
EXTENDS Integers
CONSTANTS MaxN, MaxB
VARIABLES n, b, order, k, step, weight
M == INSTANCE TrainPass
Spec == M!Spec
EachOnce == M!EachOnce
Full == M!Full
Ends == M!Ends
=============================================================================
