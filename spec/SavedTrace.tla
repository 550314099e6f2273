---------------------------- MODULE SavedTrace ------------------------------
(* Histories of real results and files, against SavedResults.              *)
EXTENDS SavedResults, TLC, Json

Cases == JsonDeserialize("cases.json")
VARIABLES tr, l, objs, files, failing
vars == <<tr, l, objs, files, failing>>

\* files: sequence of <<path, file>>
Has(path) == \E i \in DOMAIN files : files[i][1] = path
FileAt(fs, path) == fs[CHOOSE i \in DOMAIN fs : fs[i][1] = path][2]
Other(fs, path) == {fs[i] : i \in {i \in DOMAIN fs : fs[i][1] # path}}
Same(a, b) == File(a) = File(b)
NameFor(o, s) == s.stem \o (IF o.kind = "light" THEN "_light.h5" ELSE ".h5")

Guards(s) ==
  IF s.failure # "" THEN {<<"computed", FALSE>>}
  ELSE
  LET kept == \A i \in DOMAIN objs : s.objs[i] = objs[i]
      nof == {s.files[i] : i \in DOMAIN s.files} = {files[i] : i \in DOMAIN files} IN
  CASE s.op = "create" -> {<<"unchanged", kept /\ nof>>}
    [] s.op = "save" ->
       LET o == objs[s.i] IN
       {<<"saved", FileAt(s.files, s.path) = File(o)>>,
        <<"path", s.path = s.dir \o "/" \o NameFor(o, s)>>,
        <<"others", kept /\ Other(s.files, s.path) = Other(files, s.path)>>}
    [] s.op = "load" ->
       {<<"loaded", LET o == s.objs[Len(s.objs)] e == Loaded(FileAt(files, s.path), s.which, s.stem)
                    IN File(o) = File(e) /\ (o.kind # "light" => o.fname = e.fname)>>,
        <<"images", s.images = s.images0>>,
        <<"unchanged", kept /\ nof>>}
    [] s.op = "light" ->
       {<<"light", Same(s.objs[Len(s.objs)], Light(objs[s.i], s.ipass))>>,
        <<"unchanged", kept /\ nof>>}
    [] s.op = "field" ->
       {<<"field", LET f == FileAt(files, s.path) IN
                   /\ Range(s.pts) = Range(f.passes[Len(f.passes)].pts)
                   /\ Len(s.pts) = Len(f.passes[Len(f.passes)].pts)>>,
        <<"unchanged", kept /\ nof>>}
    [] s.op = "grid" ->
       {<<"grid", <<Range(s.xs), Range(s.ys)>> = GridOf(objs[s.i], s.ipass)>>,
        <<"unchanged", kept /\ nof>>}
    [] s.op = "uvmat" ->
       {<<"uvmat", \A k \in 1..Len(objs[s.i].passes) : \A v \in Range(s.uvmat[k]) :
                     \A e \in Range(objs[s.i].passes[k].u) :
                       UvmatNames[v[1]] = e[1] => v[2] = e[2]>>,
        <<"uvmat passes", Len(s.uvmat) = Len(objs[s.i].passes)
              /\ \A k \in DOMAIN s.uvmat : Len(s.uvmat[k]) = Cardinality(DOMAIN UvmatNames)>>,
        <<"unchanged", kept /\ nof>>}

FailingNames(guards) == {g[1] : g \in {x \in guards : ~x[2]}}
Steps == Cases[tr].steps

ASSUME TLCSet(1, 0)
Init == tr \in 1..Len(Cases) /\ l = 1 /\ failing = {} /\ objs = <<>> /\ files = <<>>
Next ==
  /\ l <= Len(Steps)
  /\ LET s == Steps[l] IN
     /\ failing' = FailingNames(Guards(s))
     /\ \A v \in failing' : PrintT(<<"VERDICT", Cases[tr].id, v, l>>)
     /\ objs' = s.objs
     /\ files' = s.files
     \* (the rest of a history is not checked after a wrong step)
     /\ l' = IF failing' = {} THEN l + 1 ELSE Len(Steps) + 1
     /\ UNCHANGED tr
     /\ (l' > Len(Steps)) => TLCSet(1, TLCGet(1) + 1)
Spec == Init /\ [][Next]_vars
Post == PrintT(<<"VALIDATED", TLCGet(1)>>)
=============================================================================
