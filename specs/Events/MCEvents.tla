----------------------------- MODULE MCEvents -----------------------------
EXTENDS Events
=============================================================================
