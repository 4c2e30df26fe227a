--------------------------------- MODULE C41 ---------------------------------
(* The catalogue the repository writes, and histories of fetches of the    *)
(* datasets it lists from archives published as they are in public.        *)
EXTENDS FetchChain, Catalogue
Written == /\ IsEvent("catalogue")
           /\ Judge(  Fails("the catalogue is not written", Ev.st = "ok")
                 \cup (IF Ev.st # "ok" THEN {} ELSE
                          Fails("the catalogue does not list each public dataset once", OneEach(Ev.entries))
                     \cup Fails("a dataset is listed under another name than its own", Called(Ev.entries))
                     \cup Fails("an archive is looked for at another address", Addressed(Ev.entries))
                     \cup Fails("two datasets share an archive", Distinct(Ev.entries))
                     \cup Fails("writing it again gives another catalogue", Ev.again)
                     \cup Fails("something else is written", Ev.alone)), st)
Init == ChainInitFrom(LAMBDA h : [d \in 1..Len(h.cat) |-> Unknown])
Next == Written \/ Fetch \/ Other
=============================================================================
