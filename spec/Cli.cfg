SPECIFICATION Spec
VIEW View
CONSTRAINT Small
INVARIANTS WalkerAgrees ExactWins OffersAreLegal EnterExitBalance NoSilentAction EmitAll
CHECK_DEADLOCK FALSE
