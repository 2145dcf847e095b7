----------------------------- MODULE CalibTrace -----------------------------
EXTENDS Judge, Calib
=============================================================================
