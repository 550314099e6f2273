------------------------------ MODULE MCCorrel ------------------------------
(***************************************************************************)
(* Small instances of Correl: all the windows (kinds of correlation) and   *)
(* all the maps (search of the peaks as a state machine).                  *)
(***************************************************************************)
EXTENDS Correl, TLC

CONSTANTS WY, WX, WV,      \* windows WY x WX with values in 0..WV
          MY, MX, MV, Radius, NbPeaks   \* maps
VARIABLES what, obj, state

W == [1..WY -> [1..WX -> 0..WV]]
Shifts == ((0 - Mid(WY))..(Mid(WY))) \X ((0 - Mid(WX))..Mid(WX))
Dom == (0..(MY - 1)) \X (0..(MX - 1))
Centre == <<MY \div 2, MX \div 2>>
Dist2(d) == (d[1] - Centre[1]) * (d[1] - Centre[1]) + (d[2] - Centre[2]) * (d[2] - Centre[2])

Search == [phase |-> "first", rest |-> {}, erased |-> <<>>, found |-> <<>>]
Init ==
  \/ /\ what = "windows" /\ obj \in [a : W, d : Shifts] /\ state = Search
  \/ /\ what = "map"
     /\ obj \in [map : [Dom -> 0..MV], max2 : {2, 99}]
     /\ state = [Search EXCEPT !.rest = {d \in Dom : Dist2(d) <= obj.max2}]

(* the search, step by step *)
Take(d, next) ==
  state' = [state EXCEPT !.phase = next, !.found = Append(state.found, d)]
Step ==
  /\ what = "map" /\ state.phase \notin {"done", "error"}
  /\ LET M == ArgMax(obj.map, state.rest, 0) IN
     IF M = {}
     THEN state' = [state EXCEPT !.phase = IF state.phase = "others" THEN "done" ELSE "error"]
     ELSE \E d \in M :
       IF Good(Dom, state.rest, d)
       THEN IF Len(state.found) + 1 = NbPeaks THEN Take(d, "done")
            ELSE state' = [state EXCEPT !.phase = "others", !.found = Append(state.found, d),
                                        !.rest = Erase(state.rest, d, Radius)]
       ELSE IF state.phase = "first"
            THEN state' = [state EXCEPT !.phase = "second", !.erased = <<d>>,
                                        !.rest = Erase(state.rest, d, Radius)]
            ELSE state' = [state EXCEPT !.phase = IF state.phase = "second" THEN "error" ELSE "done"]
  /\ UNCHANGED <<what, obj>>
Spec == Init /\ [][Step]_<<what, obj, state>>

-----------------------------------------------------------------------------
Moved(a, d) ==
  [i \in 1..WY |-> [j \in 1..WX |-> At(a, (i - 1 - d[1] + 2 * WY) % WY, (j - 1 - d[2] + 2 * WX) % WX)]]
(* a periodic window which is moved: its displacement is a maximum, equal to
   the norm; exchanging the windows changes the sign *)
WindowsInv ==
  what = "windows" =>
    LET b == Moved(obj.a, obj.d) IN
    /\ \A e \in Shifts : /\ Periodic(obj.a, b, e) <= Periodic(obj.a, b, obj.d)
                         /\ Periodic(b, obj.a, <<0 - e[1], 0 - e[2]>>) = Periodic(obj.a, b, e)
    /\ Periodic(obj.a, b, obj.d) * Periodic(obj.a, b, obj.d) = Norm2("periodic", obj.a, b)
    \* a window correlated with itself
    /\ Fill(obj.a, obj.a, <<0, 0>>) = Total2(obj.a)
    /\ CommonSum(obj.a, obj.a, <<0, 0>>) = Total2(obj.a)
    /\ Common(obj.a, obj.a, obj.d) > 0

Allowed == {d \in Dom : Dist2(d) <= obj.max2}
FoundSet == Found(obj.map, Dom, Allowed, Radius, 0)
MapInv ==
  what = "map" =>
    /\ state.phase \in {"done", "others"} =>
         LET p == state.found[1] IN
         /\ p \in Allowed /\ ~Border(Dom, p)
         /\ \E f \in FoundSet : f.p = p
         \* nothing higher, except around one peak which has to be rejected
         /\ \A d \in Allowed :
              obj.map[d] > obj.map[p] => state.erased # <<>> /\ d \in Around(state.erased[1], Radius)
         /\ \A i, j \in DOMAIN state.found :
              i < j => /\ state.found[j] \notin Around(state.found[i], Radius)
                       /\ obj.map[state.found[j]] <= obj.map[state.found[i]]
    /\ state.phase = "error" =>
         (state.erased # <<>> /\ state.erased[1] \in Failed(obj.map, Dom, Allowed, Radius, 0))
    /\ state.phase = "done" =>
         \E f \in FoundSet :
           /\ f.p = state.found[1]
           /\ Others(obj.map, Dom, f.rest, Radius, 0, f.p, Tail(state.found), NbPeaks - 1)
    \* the two results are exclusive when the maximum is unique
    /\ Cardinality(ArgMax(obj.map, Allowed, 0)) = 1 =>
         LET q == CHOOSE x \in ArgMax(obj.map, Allowed, 0) : TRUE IN
         Good(Dom, Allowed, q) => FoundSet = {[p |-> q, rest |-> Allowed]}
=============================================================================
