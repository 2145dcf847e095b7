----------------------------- MODULE TypedTrace -----------------------------
EXTENDS Judge, Typed
=============================================================================
