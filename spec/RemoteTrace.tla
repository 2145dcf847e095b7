------------------------------- MODULE RemoteTrace -------------------------------
EXTENDS Remote, Judge
=============================================================================
