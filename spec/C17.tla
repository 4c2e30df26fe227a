-------------------------------- MODULE C17 --------------------------------
(* Values of metrics against their definitions.                            *)
EXTENDS MetricJudge, JudgeBase
Next == JudgeStep(MetricVerdict(Obs[i]))
=============================================================================
