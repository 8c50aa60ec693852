------------------------------ MODULE MCFiles ------------------------------
EXTENDS Integers, Sequences
CONSTANTS Dirs, Samples, Paths, Nets, Folders, GameIds
VARIABLES data, models, games, seen
S1 == {<<1, 1, 1>>, <<-1, 2, 1>>}
M == INSTANCE Files
Spec == M!Spec
Lossless == M!Lossless
OneEach == M!OneEach
Separate == M!Separate
=============================================================================
