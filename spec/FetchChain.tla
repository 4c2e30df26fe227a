------------------------------ MODULE FetchChain ------------------------------
(* Fetches over one data home, judged one after the other.  Hist.cat       *)
(* describes the datasets of the catalogue, Hist.pub[ds][v] what version v *)
(* of dataset ds published: its files by fold (one fold when it has none). *)
EXTENDS Fetcher, ChainBase, SequencesExt

Fold(ds, f) == IF Hist.cat[ds].folds = 0 THEN 1 ELSE f
FoldOk(ds, f) == IF Hist.cat[ds].folds = 0 THEN f = 0 ELSE f \in 1..Hist.cat[ds].folds

(* the versions whose dataset, and whose models, the answer holds          *)
DataVersions(e) == {v \in 1..Len(Hist.pub[e.ds]) :
    LET P == Hist.pub[e.ds][v]  F == P.folds[Fold(e.ds, e.fold)] IN
    /\ e.out.train = F.train /\ e.out.test = F.test
    /\ e.out.vali = IF Hist.cat[e.ds].vali THEN F.vali ELSE [n |-> 0]
    /\ IF Hist.cat[e.ds].license THEN e.out.lic = P.lic ELSE e.out.link}
ModelVersions(e) == {v \in 1..Len(Hist.pub[e.ds]) :
    ToSet(e.out.models) = ToSet(Hist.pub[e.ds][v].folds[Fold(e.ds, e.fold)].models)
    /\ Len(e.out.models) = Len(Hist.pub[e.ds][v].folds[Fold(e.ds, e.fold)].models)}

(* what is left on disk by a history in which at most the network failed   *)
Gentle == {"none", "refuse", "gone", "short", "garbage", "reset"}
RECURSIVE Room(_, _)
Room(s, d) == IF d = 0 THEN 0 ELSE
    Room(s, d - 1) + Largest({IF v = 0 THEN 0 ELSE Hist.pub[d][v].bytes.d : v \in s[d]["d"]})
                   + Largest({IF v = 0 THEN 0 ELSE Hist.pub[d][v].bytes.m : v \in s[d]["m"]})
Left(e, s) == IF \E k \in 1..l : Hist.ev[k].op = "fetch" /\ Hist.ev[k].cause \notin Gentle THEN {}
              ELSE Fails("more is left on disk than the data", e.disk <= Room(s, Len(s)) + Slack)
              \cup Fails("data are kept elsewhere than in the folder for them", e.apart <= Slack)

Fetch ==
    /\ IsEvent("fetch")
    /\ LET e == Ev
           s == st[e.ds]
           r == [dl |-> e.dl, force |-> e.force, models |-> e.models, ver |-> e.ver]
           asked == ToSet(e.urls)
           base ==     Fails("something is written outside the folder of the dataset", ~ e.outside)
                  \cup Fails("something is downloaded although downloading is disabled", ~ r.dl => asked = {})
                  \cup Fails("complete data are downloaded again", r.dl => asked \cap NoDownload(s, r) = {})
       IN IF e.out.st = "ok" THEN
             LET D == DataVersions(e) \cap Candidates(s["d"], r)
                 M == IF r.models THEN ModelVersions(e) \cap Candidates(s["m"], r) ELSE {0}
                 v == base
                      \cup Fails("data are returned for a fold that does not exist", FoldOk(e.ds, e.fold))
                      \cup (IF ~ FoldOk(e.ds, e.fold) THEN {} ELSE
                               Fails("missing data are not reported", ~ MustFail(s, r))
                          \cup Fails("the dataset is not what was published (or was there)", MustFail(s, r) \/ D # {})
                          \cup Fails("the models are not what was published (or was there)", MustFail(s, r) \/ M # {})
                          \cup Fails("models are returned although they were not asked for", r.models \/ e.out.models = <<>>)
                          \cup Fails("no download where one was needed", MustDownload(s, r) \subseteq asked))
                 new == IF v # {} THEN st
                         ELSE [st EXCEPT ![e.ds] = AfterAnswer(s, r, [p \in Parts |-> IF p = "d" THEN CHOOSE x \in D : TRUE
                                                                                     ELSE CHOOSE x \in M : TRUE])]
             IN Judge(v \cup (IF v # {} THEN {} ELSE Left(e, new)), new)
          ELSE Judge(base \cup Left(e, [st EXCEPT ![e.ds] = AfterFailure(s, r)])
                     \cup Fails("nothing is returned for a known dataset", e.out.st # "none")
                     \cup Fails("fetching fails although nothing went wrong",
                                e.hit \/ ~ FoldOk(e.ds, e.fold) \/ MustFail(s, r) \/ MayFail(s, r))
                     \cup Fails("missing data are reported with another error than IOError",
                                (~ e.hit /\ FoldOk(e.ds, e.fold)) => e.out.io),
                     [st EXCEPT ![e.ds] = AfterFailure(s, r)])
Other == /\ IsEvent("unknown")
         /\ Judge(Fails("a name that is not in the catalogue is answered", Ev.out.st # "ok")
                  \cup Fails("something is downloaded for an unknown name", Ev.urls = <<>>), st)

=============================================================================
