----------------------------- MODULE ExportTrace -----------------------------
EXTENDS Export, Judge
=============================================================================
