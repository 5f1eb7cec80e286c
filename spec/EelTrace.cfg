SPECIFICATION TraceSpec
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
CONSTANTS
  Cells = 8388608
  MaxLoop = 1048576
  SpecLoop = 3000
  Single = FALSE
  Shim = FALSE
  Strict = FALSE
  RoundIndex = FALSE
  JudgeLock = TRUE
  JudgeOutput = TRUE
