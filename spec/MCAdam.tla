------------------------------- MODULE MCAdam -------------------------------
EXTENDS Adam
=============================================================================
