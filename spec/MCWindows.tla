----------------------------- MODULE MCWindows -----------------------------
(***************************************************************************)
(* The grids and the windows for all small images, windows, overlaps and   *)
(* displacements.                                                          *)
(***************************************************************************)
EXTENDS Windows, TLC

CONSTANTS MaxN, MaxSize, Nums, Dens, MaxD

Overlaps == {o \in Nums \X Dens : o[1] < o[2]}

VARIABLES n, s, ov, d, x
vars == <<n, s, ov, d, x>>

Steps == Step(s, ov[1], ov[2])
TheGrid == Grid(s, Steps, n)

Init ==
  /\ n \in 1..MaxN /\ s \in 2..MaxSize /\ ov \in Overlaps
  /\ d = 0 /\ x = 0
(* choose a vector and a displacement *)
Next ==
  /\ x = 0 /\ Steps >= 1
  /\ \E i \in DOMAIN TheGrid, dd \in (-MaxD)..MaxD : x' = TheGrid[i] /\ d' = dd
  /\ UNCHANGED <<n, s, ov>>
Spec == Init /\ [][Next]_vars

GridInv ==
  (x = 0 /\ Steps >= 1) =>
     /\ GridInside(TheGrid, s, n)
     /\ GridRegular(TheGrid, Steps)
     /\ GridCovers(TheGrid, s, Steps, n)
     /\ n < s => TheGrid = <<>>
CentresInv ==
  x # 0 =>
    LET c == Centres(x, x, d, 0, n, n) IN
    /\ CentresOK(c, x, x, d, 0, n, n)
    \* the windows are in the image padded with half of a window when one
    \* of the three solutions is in the image
    /\ (Abs(d) <= x /\ Abs(d) <= n - x) => CentresIn(c, n, n)
    /\ 2 * Abs(d) <= n => CentresIn(c, n, n)
=============================================================================
