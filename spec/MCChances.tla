----------------------------- MODULE MCChances -----------------------------
EXTENDS Chances
=============================================================================
