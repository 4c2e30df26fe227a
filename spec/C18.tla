-------------------------------- MODULE C18 --------------------------------
(* Values of metrics against their definitions.                            *)
EXTENDS MetricJudge, JudgeBase
Next == JudgeStep(MetricVerdict(Obs[i]))
=============================================================================
