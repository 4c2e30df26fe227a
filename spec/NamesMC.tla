------------------------------- MODULE NamesMC -------------------------------
(* Metrics that differ in name, cutoff or threshold are told apart by what *)
(* they are called; equal ones are not.                                    *)
EXTENDS Names, TLC
CONSTANTS Cutoffs, Thresholds, Own
VARIABLES a, b

Metrics == [class : DOMAIN Default, name : Own, cutoff : Cutoffs, thr : Thresholds]
Text(m) == MetricText(m.class, m.name, m.cutoff, m.thr)
Init == a \in Metrics /\ b \in Metrics
Next == UNCHANGED <<a, b>>

Shown(m) == <<m.name, IF m.class \in WithCutoff THEN m.cutoff ELSE "",
              IF m.class \in WithThreshold /\ m.thr # "1" THEN m.thr ELSE "">>
ToldApart == a.class = b.class => (Text(a) = Text(b) <=> Shown(a) = Shown(b))
Classes == Text(a) = Text(b) /\ a.name = "" /\ b.name = "" => Default[a.class] = Default[b.class]
=============================================================================
