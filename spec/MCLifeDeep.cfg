SPECIFICATION Spec
CONSTANTS
 D = 5
 Sim = FALSE
 PairsC <- P2
 PolsC <- L2
 TimesC <- T2
 FreqsC <- F2
VIEW View
CONSTRAINT Bound
INVARIANTS Provenance FileProvenance WellFormed Unique
CHECK_DEADLOCK FALSE
