-------------------------------- MODULE Core --------------------------------
EXTENDS Nbhood
=============================================================================
