SPECIFICATION Spec
CONSTANTS NP = 2
 Stable = {1,2,3,7}
 TEnds = {0,5,8}
 NMax = {0,3,20}
 NOuts <- NOutsDef
 Starts = {0,2}
 Restarts = FALSE
INVARIANTS ClockIsSumOfSteps NeverPast StepsPositive StopsExactly Numbered OwnState Quiet FirstAndLast Scheduled AllDue EveryStep
PROPERTY Terminates
CHECK_DEADLOCK FALSE
