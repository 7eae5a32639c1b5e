INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 2
INVARIANTS ReplyInv AnswersQueries ChainInv PrintScript
