--------------------------------- MODULE C29 ---------------------------------
(* Histories of fetches over one data home.                                *)
EXTENDS FetchChain
Init == ChainInitFrom(LAMBDA h : [d \in 1..Len(h.cat) |-> Unknown])
Next == Fetch \/ Other
=============================================================================
