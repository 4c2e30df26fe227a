INIT JudgeInit
NEXT Next
POSTCONDITION AllJudged
