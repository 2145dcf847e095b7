----------------------------- MODULE EngineTrace -----------------------------
EXTENDS Judge, Engine
=============================================================================
