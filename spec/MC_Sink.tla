------------------------------- MODULE MC_Sink -------------------------------
EXTENDS Sink
const_Out == <<1, 2, 1, 1, 2, 2>>
=============================================================================
