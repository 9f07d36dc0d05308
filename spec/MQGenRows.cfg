SPECIFICATION Spec
CONSTANTS
  Names <- cNames
  Lits <- cLits
  Compares <- cCompares
  Logics <- cLogics
  Matches <- cMatches
  Ranges <- cRanges
  Ins <- cIns
  Nots <- cNots
  Gaps <- cGaps
  Gaps1 <- cGaps1
  Features <- cFeatures
  MaxFuel = 2
  Emit = FALSE
INVARIANTS StackDiscipline OneTree Agreement RoundTrip Emitted
CHECK_DEADLOCK FALSE
