-------------------------------- MODULE C33 --------------------------------
(* Histories of questions to one Scorer.  The state holds the weights the  *)
(* model has now and those the remembered scores and decomposition are     *)
(* computed with (<<>>: nothing is remembered yet).                        *)
EXTENDS Scoring, ChainBase
Model(w) == [root |-> Hist.m.root, w |-> w, l |-> Hist.m.l, r |-> Hist.m.r, v |-> Hist.m.v, f |-> Hist.m.f, lr |-> "1", base |-> "0"]
X == Hist.X
NT == Len(Hist.m.root)
near(y, s, mag, n) == IF Hist.exact THEN y = s ELSE Near(y, s, mag, n)

ScoresAre(w, out) ==
    LET m == TLCEval(Model(w)) IN
    Fails("scores of the rows", Len(out) = Len(X) /\ \A a \in 1..Len(X) : LET t == Terms(m, X[a]) IN near(out[a], ScoreOf(m, t), Magnitude(m, t), NT))
PartsAre(w, out) ==
    LET m == TLCEval(Model(w)) IN
    Fails("contributions of the trees", Len(out) = Len(X) /\ \A a \in 1..Len(X) : LET p == Parts(m, Terms(m, X[a])) IN
        Len(out[a]) = NT /\ \A k \in 1..NT : near(out[a][k], p[k], RAbs(p[k]), 1))
LeavesAre(out) ==
    LET m == Model(st.w) IN
    Fails("leaves of the rows", Len(out) = Len(X) /\ \A a \in 1..Len(X) : Len(out[a]) = NT /\ \A k \in 1..NT : out[a][k] = LeafAt(m, k, X[a]))

(* what is remembered after a plain, and after a detailed scoring          *)
Plain == IF st.y # <<>> THEN st ELSE [st EXCEPT !.y = st.w]
Deep  == IF st.p # <<>> THEN st ELSE [st EXCEPT !.y = st.w, !.p = st.w]
Answer(v, s) == IF Ev.st # "ok" THEN Judge({"the scorer fails"}, s) ELSE Judge(v, s)

Init == ChainInitFrom(LAMBDA h : [w |-> h.m.w, y |-> <<>>, p |-> <<>>])
Next == \/ IsEvent("write") /\ Judge({}, [st EXCEPT !.w = Ev.w])
        \/ IsEvent("basic") /\ Answer(ScoresAre(Plain.y, Ev.out), Plain)
        \/ IsEvent("scores") /\ Answer(ScoresAre(Plain.y, Ev.out), Plain)
        \/ IsEvent("detailed") /\ Answer(ScoresAre(Deep.y, Ev.out), Deep)
        \/ IsEvent("parts") /\ Answer(PartsAre(Deep.p, Ev.out), Deep)
        \/ IsEvent("leaves") /\ Answer(LeavesAre(Ev.out), Deep)
=============================================================================
