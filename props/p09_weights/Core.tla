-------------------------------- MODULE Core --------------------------------
(* Blending weights: the definitions are shared with the blending of values.    *)
EXTENDS Weights
=============================================================================
