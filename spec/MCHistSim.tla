------------------------------ MODULE MCHistSim ------------------------------
(* Long random histories (simulation mode), replayed when they end.             *)
EXTENDS MCHist
EmitEnd == (Len(hist) = MaxDepth \/ st = "refused") => PrintT(ToJson(Out))
=============================================================================
