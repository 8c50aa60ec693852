------------------------------ MODULE MCShown ------------------------------
EXTENDS Shown
=============================================================================
