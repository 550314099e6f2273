----------------------------- MODULE SplitTrace -----------------------------
(***************************************************************************)
(* Validation of the splits done by the code. cases.json: sequence of      *)
(*  op "range": start, stop, step, np, parts (triples)                     *)
(*  op "list": seq, np, parts                                              *)
(*  op "splitter": cfg, existing (elements already computed), np, parts,   *)
(*     nexp, tol: parts given by a Splitter                                *)
(*  op "run": the same for the parts of a real execution (results names    *)
(*     by process translated to elements)                                  *)
(***************************************************************************)
EXTENDS Split, Json

Cases == JsonDeserialize("cases.json")
VARIABLE tr

ToCompute(c) == SelectSeq(Elements(c.cfg), LAMBDA e : e \notin RangeOf(c.existing))

Guards(c) ==
  CASE c.op = "range" ->
       LET seqs == [i \in 1..Len(c.parts) |->
                      PyRange(c.parts[i][1], c.parts[i][2], c.parts[i][3])]
       IN SplitGuards(PyRange(c.start, c.stop, c.step), seqs, c.np, 1)
          \union {<<"number-of-parts", Len(c.parts) = c.np>>}
    [] c.op = "list" -> SplitGuards(c.seq, c.parts, c.np, 1)
    [] c.op = "splitter" ->
       SplitGuards(ToCompute(c), c.parts, c.np, c.tol)
       \union {<<"expected-number", c.nexp = Len(ToCompute(c))>>}
    [] c.op = "run" ->
       SplitSetGuards(ToCompute(c), c.parts, c.np, c.tol)
       \union {<<"expected-number", c.nexp = Len(ToCompute(c))>>}

ASSUME TLCSet(1, 0)
Init == tr \in 1..Len(Cases)
Next ==
  /\ tr > 0
  /\ tr' = -tr
  /\ \A n \in FailingNames(Guards(Cases[tr])) :
       PrintT(<<"VERDICT", Cases[tr].id, n, Cases[tr].op>>)
  /\ TLCSet(1, TLCGet(1) + 1)
Spec == Init /\ [][Next]_tr
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
