--------------------------------- MODULE Auth ---------------------------------
(***************************************************************************)
(* The web application behind a password.  held is the set of traces it    *)
(* has.  A request is [k, t, creds]: what is asked for, of which trace (0: *)
(* of none), and the authorization headers, each [exact, dec]: the         *)
(* credentials (user:password) it decodes to under any reading ("" if      *)
(* none), and whether it is written exactly as RFC 7617 has it.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Must(want, creds) == /\ Len(creds) = 1 /\ creds[1].exact /\ creds[1].dec = want
May(want, creds) == \E i \in DOMAIN creds : creds[i].dec = want

\* what a request changes, and which traces its answer tells of, when served
After(held, k, t) == IF k \in {"upload", "perma"} THEN held \cup {t} ELSE held
Tells(held, k, t) == CASE k \in {"list", "agg"} -> held
                       [] k \in {"page", "profile"} -> held \cap {t}
                       [] k = "perma" -> {t}
                       [] OTHER -> {}
Good(held, k, t) == CASE k \in {"root", "list", "agg", "upload", "perma"} -> TRUE
                      [] k \in {"page", "profile"} -> t \in held
                      [] OTHER -> FALSE
=============================================================================
