-------------------------------- MODULE Mean --------------------------------
(***************************************************************************)
(* Mean of the images of a series by successive partial sums (C11).        *)
(*                                                                         *)
(* A partial sum is represented by the set of the images it contains (so   *)
(* that an image lost or counted twice is visible).  Each process p reads  *)
(* its images (paths, reading, arrays), combines them (tmp) and writes one *)
(* file when nothing remains to be read; the last step combines the files. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Images, NP, Workers

Procs == 1..NP
None == {}   \* no file

VARIABLES paths, reading, arrays, tmp, file, bad, result, finished
vars == <<paths, reading, arrays, tmp, file, bad, result, finished>>

Init ==
  /\ paths \in {f \in [Procs -> SUBSET Images] :
                  /\ UNION {f[p] : p \in Procs} = Images
                  /\ \A p, q \in Procs : p # q => f[p] \intersect f[q] = {}}
  /\ bad \in SUBSET Images
  /\ reading = [p \in Procs |-> {}]
  /\ arrays = [p \in Procs |-> {}]
  /\ tmp = [p \in Procs |-> {}]
  /\ file = [p \in Procs |-> None]
  /\ result = {} /\ finished = FALSE

StartRead(p, i) ==
  /\ i \in paths[p] /\ Cardinality(reading[p]) < Workers
  /\ paths' = [paths EXCEPT ![p] = @ \ {i}]
  /\ reading' = [reading EXCEPT ![p] = @ \union {i}]
  /\ UNCHANGED <<arrays, tmp, file, bad, result, finished>>

EndRead(p, i) ==
  /\ i \in reading[p]
  /\ reading' = [reading EXCEPT ![p] = @ \ {i}]
  /\ arrays' = [arrays EXCEPT ![p] = @ \union {i}]
  /\ UNCHANGED <<paths, tmp, file, bad, result, finished>>

RECURSIVE Reduce(_, _)
(* combine k partial sums as long as there are at least k of them *)
Reduce(parts, k) ==
  IF Cardinality(parts) < k THEN parts
  ELSE LET some == CHOOSE S \in SUBSET parts : Cardinality(S) = k
       IN Reduce((parts \ some) \union {UNION some}, k)

Last(p) == paths[p] = {} /\ reading[p] = {}

(* the global work: takes the arrays, combines them *)
Main(p) ==
  LET new == {{i} : i \in arrays[p] \ bad}
      parts == Reduce(tmp[p] \union new, 4)
      one == Reduce(parts, 2)
  IN
  /\ arrays[p] # {} \/ (Last(p) /\ tmp[p] # {})
  /\ arrays' = [arrays EXCEPT ![p] = {}]
  /\ IF Last(p)
     THEN /\ tmp' = [tmp EXCEPT ![p] = {}]
          /\ file' = IF one = {} THEN file
                     ELSE [file EXCEPT ![p] = CHOOSE s \in one : TRUE]
     ELSE /\ tmp' = [tmp EXCEPT ![p] = parts]
          /\ UNCHANGED file
  /\ UNCHANGED <<paths, reading, bad, result, finished>>

ProcFinished(p) == paths[p] = {} /\ reading[p] = {} /\ arrays[p] = {} /\ tmp[p] = {}

Final ==
  /\ \A p \in Procs : ProcFinished(p)
  /\ ~finished /\ finished' = TRUE
  /\ result' = UNION {file[p] : p \in Procs}
  /\ UNCHANGED <<paths, reading, arrays, tmp, file, bad>>

Next ==
  \/ \E p \in Procs : Main(p) \/ \E i \in Images : StartRead(p, i) \/ EndRead(p, i)
  \/ Final

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
Parts(p) == tmp[p] \union (IF file[p] = None THEN {} ELSE {file[p]})
(* no image in two partial sums *)
CountedOnce ==
  \A p, q \in Procs : \A s \in Parts(p), t \in Parts(q) :
    (p # q \/ s # t) => s \intersect t = {}
(* one file by process, written once *)
WrittenOnce == [][\A p \in Procs : file[p] # None => file'[p] = file[p]]_vars
Exact == finished => result = Images \ bad
Terminates == <>finished
=============================================================================
