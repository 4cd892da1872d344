SPECIFICATION Spec
CONSTANTS
 D = 12
 Sim = TRUE
 PairsC <- P3
 PolsC <- L4
 TimesC <- T2
 FreqsC <- F3
INVARIANTS Provenance
CHECK_DEADLOCK FALSE
