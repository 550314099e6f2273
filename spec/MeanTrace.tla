----------------------------- MODULE MeanTrace -----------------------------
(***************************************************************************)
(* Validation of executions of the topology computing a mean image.        *)
(* cases.json: id, cfg (see Names), names (all images by rank), pixels     *)
(*  (values of the pixels of each image, by rank), bad (images which can   *)
(*  not be read), runs: [executor, stop, result (pixels), attr (pixels of  *)
(*  topology.result, or <<>>), exceptions (number), n (announced)]         *)
(***************************************************************************)
EXTENDS Names, Sets, Json

Cases == JsonDeserialize("cases.json")
VARIABLE tr

Rank(c, name) == CHOOSE i \in 1..Len(c.names) : c.names[i] = name
Selected(c) == {e[1] : e \in RangeOf(Elements(c.cfg))}
Good(c) == Selected(c) \ RangeOf(c.bad)

RECURSIVE Sum(_, _, _)
Sum(c, S, k) ==
  IF S = {} THEN 0
  ELSE LET n == CHOOSE x \in S : TRUE IN c.pixels[Rank(c, n)][k] + Sum(c, S \ {n}, k)

(* the exact mean, rounded in one direction or the other *)
IsMean(c, pixels) ==
  LET n == Cardinality(Good(c)) IN
  /\ Len(pixels) = Len(c.pixels[1])
  /\ \A k \in 1..Len(pixels) :
       LET d == pixels[k] * n - Sum(c, Good(c), k) IN d < n /\ -d < n

Guards(c, r) ==
  {<<"ends-normally", r.stop = "normal">>} \union
  (IF r.stop # "normal" THEN {} ELSE
    {<<"mean-file", IsMean(c, r.result)>>,
     <<"mean-attribute", r.attr = <<>> \/ r.attr = r.result>>,
     <<"failures-reported", r.nocount \/ r.exceptions = Cardinality(Selected(c) \ Good(c))>>,
     <<"no-temporary-file", r.tmp = 0>>})

Verdicts(c) ==
  UNION {{<<i, n>> : n \in FailingNames(Guards(c, c.runs[i]))} : i \in 1..Len(c.runs)}

ASSUME TLCSet(1, 0)
Init == tr \in 1..Len(Cases)
Next ==
  /\ tr > 0
  /\ tr' = -tr
  /\ \A v \in Verdicts(Cases[tr]) :
       PrintT(<<"VERDICT", Cases[tr].id, v[2], ToString(v[1])>>)
  /\ TLCSet(1, TLCGet(1) + 1)
Spec == Init /\ [][Next]_tr
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
