----------------------------- MODULE ResultDir -----------------------------
(***************************************************************************)
(* The directories of results beside the images (C07): choice of the       *)
(* directory and use of it, for the modes of saving and the answers of the *)
(* user, with directories created and removed by the user.                 *)
(*                                                                         *)
(* disk: function from the names of the existing directories to functions  *)
(* from the computed elements to the date of their file.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Bases,     \* names obtained from the postfixes or given explicitly
          N,         \* elements
          MaxIndex,  \* bound of the exploration
          MaxLen, Record
VARIABLES disk, now, hist, last

vars == <<disk, now, hist, last>>
Elems == 1..N
Existing == DOMAIN disk
Numbered(base) == {base \o ToString(i) : i \in 0..MaxIndex}

(* the directory of a computation *)
FirstFree(exists(_), base) ==
  LET i == CHOOSE k \in 0..1000 :
             /\ ~exists(base \o ToString(k))
             /\ \A j \in 0..(k - 1) : exists(base \o ToString(j))
  IN base \o ToString(i)
Chosen(exists(_), base, how) ==
  IF ~exists(base) \/ how # "new_dir" THEN base ELSE FirstFree(exists, base)

(* what is done for a mode of saving and an answer of the user *)
Effective(exists(_), base, how, answer) ==
  IF how # "ask" THEN how
  ELSE IF ~exists(base) THEN "recompute"
  ELSE CASE answer = "n" -> "new_dir"
         [] answer = "c" -> "complete"
         [] answer = "r" -> "recompute"
         [] answer = "s" -> "stop"

Exists(d) == d \in Existing
Content(d) == IF d \in Existing THEN disk[d] ELSE <<>>
Todo(how, content) == IF how = "complete" THEN Elems \ DOMAIN content ELSE Elems
Put(d, f) == [e \in Existing \union {d} |-> IF e = d THEN f ELSE disk[e]]
Write(content, S) ==
  [e \in DOMAIN content \union S |-> IF e \in S THEN now ELSE content[e]]

Log(op) == /\ hist' = IF Record THEN Append(hist, op) ELSE hist
           /\ now' = now + 1

Init == disk = <<>> /\ now = 1 /\ hist = <<>> /\ last = <<"none", "">>

Compute(base, how, answer) ==
  LET eff == Effective(Exists, base, how, answer) IN
  /\ Log(<<"compute", base, how, answer>>)
  /\ IF eff = "stop" THEN disk' = disk /\ last' = <<"stop", "">>
     ELSE LET d == Chosen(Exists, base, eff)
              content == Content(d)
          IN /\ disk' = Put(d, Write(content, Todo(eff, content)))
             /\ last' = <<eff, d>>

(* an interrupted execution: the directory is created, a part is computed *)
Interrupted(base, how) ==
  LET d == Chosen(Exists, base, how)
      content == Content(d)
  IN \E S \in SUBSET Todo(how, content) :
       /\ Log(<<"interrupted", base, how, ToString(Cardinality(S))>>)
       /\ disk' = Put(d, Write(content, S))
       /\ last' = <<how, d>>

UserCreates(d) ==
  /\ d \notin Existing
  /\ disk' = Put(d, <<>>)
  /\ Log(<<"mkdir", d, "", "">>)
  /\ last' = <<"user", d>>

UserRemoves(d) ==
  /\ d \in Existing
  /\ disk' = [e \in Existing \ {d} |-> disk[e]]
  /\ Log(<<"rmdir", d, "", "">>)
  /\ last' = <<"user", d>>

Next ==
  /\ now <= MaxLen
  /\ \/ \E b \in Bases, how \in {"new_dir", "complete", "recompute"} :
          Compute(b, how, "") \/ Interrupted(b, how)
     \/ \E b \in Bases, a \in {"n", "c", "r", "s"} : Compute(b, "ask", a)
     \/ \E b \in Bases : \E d \in {b} \union Numbered(b) : UserCreates(d) \/ UserRemoves(d)

Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Computed == last'[1] \in {"new_dir", "complete", "recompute"}
NewDirIsNew == [][last'[1] = "new_dir" => last'[2] \notin Existing]_vars
OthersUntouched ==
  [][last'[1] # "user" =>
       \A d \in Existing : d \in DOMAIN disk' /\ (d # last'[2] => disk'[d] = disk[d])]_vars
OneDirectory == [][Computed => DOMAIN disk' = Existing \union {last'[2]}]_vars
StopDoesNothing == [][last'[1] = "stop" => disk' = disk]_vars
NothingDestroyed ==
  [][last'[1] \in {"new_dir", "complete"} =>
       \A d \in Existing : \A e \in DOMAIN disk[d] :
          e \in DOMAIN disk'[d] /\ disk'[d][e] = disk[d][e]]_vars
NothingRemoved ==
  [][last'[1] # "user" => \A d \in Existing : DOMAIN disk[d] \subseteq DOMAIN disk'[d]]_vars
PrintHist == (Record /\ now = MaxLen + 1) => PrintT(<<"HIST", hist>>)
=============================================================================
