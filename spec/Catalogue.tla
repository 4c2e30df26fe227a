------------------------------ MODULE Catalogue ------------------------------
(***************************************************************************)
(* The public datasets as they are published: by folds or not, with a      *)
(* validation part or not, with a licence file or not, and the archives of *)
(* the data and of the models.  And what a catalogue says of them.         *)
(***************************************************************************)
EXTENDS Sequences, Integers, FiniteSets
Public == << [name |-> "istella-full",   folds |-> 0, vali |-> FALSE, license |-> TRUE,  d |-> "istella-letor.tar.gz",   m |-> "istella-letor-models.tar.gz"],
             [name |-> "istella-sample", folds |-> 0, vali |-> TRUE,  license |-> TRUE,  d |-> "istella-s-letor.tar.gz", m |-> "istella-s-letor-models.tar.gz"],
             [name |-> "msn10k",         folds |-> 5, vali |-> TRUE,  license |-> FALSE, d |-> "msn10k.tar.gz",          m |-> "msn10k-models.tar.gz"],
             [name |-> "msn30k",         folds |-> 5, vali |-> TRUE,  license |-> FALSE, d |-> "msn30k.tar.gz",          m |-> "msn30k-models.tar.gz"] >>
Names == {Public[k].name : k \in 1..Len(Public)}
The(n) == Public[CHOOSE k \in 1..Len(Public) : Public[k].name = n]
(* an entry: key, name, and the last part of the addresses of the archives *)
OneEach(s) == Len(s) = Cardinality(Names) /\ {s[k].key : k \in 1..Len(s)} = Names
Called(s) == \A k \in 1..Len(s) : s[k].name = s[k].key
Addressed(s) == \A k \in 1..Len(s) : s[k].key \in Names => (s[k].d = The(s[k].key).d /\ s[k].m = The(s[k].key).m)
(* no two archives at one address                                          *)
Distinct(s) == Cardinality({s[k].d : k \in 1..Len(s)} \cup {s[k].m : k \in 1..Len(s)}) = 2 * Len(s)
=============================================================================
