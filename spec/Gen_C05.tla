------------------------------- MODULE Gen_C05 -------------------------------
EXTENDS MoCases
=============================================================================
