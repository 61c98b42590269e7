-------------------------------- MODULE ServeMC --------------------------------
(***************************************************************************)
(* The server (mem), its saves (a snapshot is taken, then renamed over the *)
(* file), kills, restarts, and an observer: what it has seen the server    *)
(* have, and since then how often it has seen the file change, are all it  *)
(* knows of the saves.  InPlace: a wrong design that writes the file       *)
(* itself, and a kill in the middle loses it.  FewSaves: an observer that  *)
(* concludes from one change.                                              *)
(***************************************************************************)
EXTENDS Serve, TLC
CONSTANTS N, Conns, Kills, InPlace, Need
VARIABLES conn, mem, file, snap, up, base, vis, changes, safe, kills, bad
vars == <<conn, mem, file, snap, up, base, vis, changes, safe, kills, bad>>
None == {-1}
Init == /\ conn = <<>> /\ mem = {} /\ file = {} /\ snap = None /\ up = TRUE /\ base = {}
        /\ vis = {} /\ changes = 0 /\ safe = {} /\ kills = 0 /\ bad = FALSE
Send(c) == /\ up /\ Len(conn) < N /\ conn' = Append(conn, kills * 10 + c)
           /\ UNCHANGED <<mem, file, snap, up, base, vis, changes, safe, kills, bad>>
\* the server takes the next packet of a connection of its own life
Take(c) == /\ up
           /\ \E k \in DOMAIN conn \ mem : /\ conn[k] = kills * 10 + c
                                           /\ \A j \in DOMAIN conn : j < k /\ conn[j] = conn[k] => j \in mem
                                           /\ mem' = mem \cup {k}
           /\ UNCHANGED <<conn, file, snap, up, base, vis, changes, safe, kills, bad>>
Begin == /\ up /\ snap = None /\ snap' = mem
         /\ file' = IF InPlace THEN {} ELSE file
         /\ UNCHANGED <<conn, mem, up, base, vis, changes, safe, kills, bad>>
End == /\ up /\ snap # None /\ file' = snap /\ snap' = None
       /\ changes' = IF changes < Need THEN changes + 1 ELSE changes
       /\ safe' = IF changes' = Need THEN safe \cup vis ELSE safe
       /\ UNCHANGED <<conn, mem, up, base, vis, kills, bad>>
\* the observer looks at what the server has, and at the file
See == /\ up /\ vis # mem /\ vis' = mem /\ changes' = 0 /\ bad' = (bad \/ ~Reached(mem, base, conn))
       /\ UNCHANGED <<conn, mem, file, snap, up, base, safe, kills>>
Kill == /\ up /\ kills < Kills /\ kills' = kills + 1 /\ up' = FALSE /\ mem' = {} /\ snap' = None
        /\ UNCHANGED <<conn, file, base, vis, changes, safe, bad>>
Up == /\ ~up /\ up' = TRUE /\ mem' = file /\ base' = file /\ vis' = file /\ safe' = file /\ changes' = 0
      /\ bad' = (bad \/ ~(safe \subseteq file /\ Reached(file, base, conn)))
      /\ UNCHANGED <<conn, file, snap, kills>>
Next == (\E c \in Conns : Send(c) \/ Take(c)) \/ Begin \/ End \/ See \/ Kill \/ Up
Spec == Init /\ [][Next]_vars
\* what ServeTrace asks of the observations holds of this design
Sound == ~bad
=============================================================================
