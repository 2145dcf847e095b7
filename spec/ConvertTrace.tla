------------------------------- MODULE ConvertTrace -------------------------------
EXTENDS Convert, Judge
=============================================================================
