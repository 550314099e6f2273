---------------------------- MODULE SavedResults ----------------------------
(***************************************************************************)
(* PIV results in memory and in files.                                     *)
(*                                                                         *)
(* A result has a kind ("multi", "heavy" or "light"), passes and the       *)
(* information on its parameters and its images.  A pass has fields        *)
(* (sequences of <<name, content>>), dictionaries, TPS coefficients in     *)
(* subdomains, and the points <<x, y, dx, dy>> of its final and its        *)
(* approximated displacements.  The contents are digests of the values in  *)
(* the precision of the files.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* the fields which are saved
LightFields == {"ixvecs_final", "iyvecs_final", "deltaxs_final", "deltays_final"}
Only(f, names) == SelectSeq(f, LAMBDA e : e[1] \in names)
Renamed(f, map) == [i \in 1..Len(f) |-> <<map[f[i][1]], f[i][2]>>]
Approx == [ixvecs_approx |-> "ixvecs_final", iyvecs_approx |-> "iyvecs_final",
           deltaxs_approx |-> "deltaxs_final", deltays_approx |-> "deltays_final"]

\* the displacements of the last pass of a light result are the final ones
IndexPass(o, i) == IF i < 0 THEN Len(o.passes) + i + 1 ELSE i + 1
LightPass(o, i) ==
  LET k == IndexPass(o, i) p == o.passes[k] IN
  IF k = Len(o.passes)
  THEN [f |-> Only(p.f, LightFields), d |-> <<>>, tps |-> <<>>, codes |-> <<>>, u |-> <<>>, g |-> <<>>,
        pts |-> p.pts, apts |-> <<>>]
  ELSE [f |-> Renamed(Only(p.f, DOMAIN Approx), Approx), d |-> <<>>, tps |-> <<>>,
        codes |-> <<>>, u |-> <<>>, g |-> <<>>, pts |-> p.apts, apts |-> <<>>]
OnlyLight(p) ==
  [f |-> Only(p.f, LightFields), d |-> <<>>, tps |-> <<>>, codes |-> <<>>, u |-> <<>>, g |-> <<>>,
   pts |-> p.pts, apts |-> <<>>]

Light(o, i) == [o EXCEPT !.kind = "light", !.passes = <<LightPass(o, i)>>]

\* the file of a result: everything; and what is obtained by loading a file
File(o) == [kind |-> o.kind, passes |-> o.passes, params |-> o.params,
            names |-> o.names, paths |-> o.paths, shape |-> o.shape]
Loaded(file, cls, name) ==
  [kind |-> cls,
   passes |-> CASE cls = "multi" -> file.passes
                [] cls = "heavy" -> <<file.passes[1]>>
                [] cls = "light" -> <<OnlyLight(file.passes[Len(file.passes)])>>,
   params |-> file.params, names |-> file.names, paths |-> file.paths,
   shape |-> file.shape, fname |-> IF cls = "light" THEN "" ELSE name]
CanLoad(file, cls) ==
  \/ cls = "multi" /\ file.kind = "multi"
  \/ cls = "heavy" /\ file.kind \in {"multi", "heavy"}
  \/ cls = "light" /\ \A p \in {file.passes[Len(file.passes)]} :
        {e[1] : e \in {p.f[i] : i \in DOMAIN p.f}} \cap LightFields = LightFields

\* the grid of a pass, on which the displacements of the previous one are
\* interpolated; for the first pass, the positions of the vectors
Range(q) == {q[i] : i \in DOMAIN q}
GridOf(o, i) ==
  LET k == IndexPass(o, i)
      pts == IF k = Len(o.passes) THEN o.passes[k].pts ELSE o.passes[k - 1].apts IN
  IF k = 1 /\ k < Len(o.passes)
  THEN <<Range(o.passes[1].g[1]), Range(o.passes[1].g[2])>>
  ELSE <<{p[1] : p \in Range(pts)}, {p[2] : p \in Range(pts)}>>

\* the variables of a file for uvmat (nan replaced by 0)
UvmatNames == [Civ_X |-> "xs", Civ_Y |-> "ys", Civ_U |-> "deltaxs0", Civ_V |-> "deltays0",
               Civ_C |-> "correls_max", Civ_FF |-> "isnan"]
=============================================================================
