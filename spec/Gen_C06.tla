------------------------------- MODULE Gen_C06 -------------------------------
EXTENDS MoCases
=============================================================================
