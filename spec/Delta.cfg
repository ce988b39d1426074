SPECIFICATION Spec
CONSTANTS
  N = 2
  Vals = {"0", "1", "2"}
VIEW View
INVARIANTS DiffGivesFirst DiffIsMinimal OnlyMentioned Idempotent ReportsChange MergeIsSequence
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
