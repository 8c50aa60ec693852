--------------------------- MODULE MCBeginnings ---------------------------
EXTENDS Beginnings
=============================================================================
