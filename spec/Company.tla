------------------------------- MODULE Company -------------------------------
(***************************************************************************)
(* What a model answers about a document is a function of the document.    *)
(* alone[d] is the answer about document d when it is scored alone; seen   *)
(* is the set of pairs <<document, answer>> of a run over many documents.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Function(alone, seen) == \A k \in 1..Len(seen) : seen[k][2] = alone[seen[k][1]]
Everyone(docs, seen) == {docs[k] : k \in 1..Len(docs)} = {seen[k][1] : k \in 1..Len(seen)}
=============================================================================
