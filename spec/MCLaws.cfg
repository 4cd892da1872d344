SPECIFICATION Spec
CONSTANTS
 D = 2
 Sim = FALSE
 PairsC <- P2
 PolsC <- L2
 TimesC <- T2
 FreqsC <- F2
VIEW View
CONSTRAINT Bound
INVARIANTS Provenance FileProvenance WellFormed Unique SplitAddIsIdentity ConjInvolution SelectIdempotent SelectCommutes SelectConjCommute
CHECK_DEADLOCK FALSE
