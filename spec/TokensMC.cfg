INIT Init
NEXT Next
INVARIANTS ValueMeansMatch SuccessMeansValue IntExact IntOffers CompsAreValues AltExact RstrExact EmitAll
CHECK_DEADLOCK FALSE
