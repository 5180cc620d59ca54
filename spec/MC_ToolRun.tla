------------------------------ MODULE MC_ToolRun ------------------------------
EXTENDS ToolRun
=============================================================================
