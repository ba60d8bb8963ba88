------------------------------ MODULE BTStore -------------------------------
(* Saving trees below the configured storage folders. Paths are sequences of names below the surroundings of the folders;
   a file system is fs = [files: set of [p, c], dirs: set of paths, ro: folders that cannot be written].
   A request: root (a path), conf (whether it is one of the configured folders, as written), abs and comps (the file name given),
   ow, rn (overwriting, renaming allowed), c (which tree).  An answer: ok, path (that of the file it names). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Bad == {"LONG", "NUL"}          \* names no file can have
RECURSIVE Walk(_, _, _)
\* follows the names; <<FALSE>> when this leads above everything
Walk(p, q, i) ==
  IF i > Len(q) THEN <<TRUE, p>>
  ELSE CASE q[i] \in {"", "."} -> Walk(p, q, i + 1)
         [] q[i] = ".." -> IF p = <<>> THEN <<FALSE>> ELSE Walk(Front(p), q, i + 1)
         [] OTHER -> Walk(Append(p, q[i]), q, i + 1)

Target(r) == Walk(<<>>, IF r.abs THEN r.comps ELSE r.root \o r.comps, 1)
Under(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
Files(fs) == {f.p : f \in fs.files}
Exists(fs) == Files(fs) \cup fs.dirs
\* the folder below which the missing folders of t would be made
Parents(t) == {SubSeq(t, 1, i) : i \in 0..(Len(t) - 1)}
Above(fs, t) == CHOOSE p \in Parents(t) \cap fs.dirs : \A q \in Parents(t) \cap fs.dirs : Len(q) <= Len(p)

Allowed(fs, r) ==
  LET w == Target(r) IN
  /\ r.conf /\ w[1]
  /\ Under(r.root, w[2])
  /\ \A i \in 1..Len(w[2]) : w[2][i] \notin Bad
  /\ w[2] \notin fs.dirs
  /\ Parents(w[2]) \cap Files(fs) = {}
  /\ w[2] \in Files(fs) => r.rn \/ r.ow
  /\ w[2] \notin Files(fs) \/ r.rn => Above(fs, w[2]) \notin fs.ro

\* where the tree may be written
Places(fs, r, given) ==
  LET t == Target(r)[2] IN
  IF t \in Files(fs) /\ r.rn THEN {q \in given : Len(q) = Len(t) /\ Front(q) = Front(t) /\ q \notin Exists(fs)} ELSE {t}

Saved(fs, q, c) == [fs EXCEPT !.files = {f \in @ : f.p # q} \cup {[p |-> q, c |-> c]}, !.dirs = @ \cup Parents(q)]

\* what is wrong with the answer a and the file system fs2 that is left
Judge(fs, r, a, fs2) ==
  LET ok == Allowed(fs, r) IN
  IF ok /\ ~a.ok THEN "a tree that may be saved is refused"
  ELSE IF ~ok /\ a.ok THEN "a tree that may not be saved is"
  ELSE IF ~ok /\ fs2.files # fs.files THEN "a refused request changes files"
  ELSE IF ~ok THEN (IF {d \in fs2.dirs \ fs.dirs : ~r.conf \/ ~Under(r.root, d)} = {} THEN "" ELSE "folders are made outside of the storage folder")
  ELSE LET P == Places(fs, r, Files(fs2)) IN
       IF \E q \in P : fs2.files = Saved(fs, q, r.c).files /\ a.path = q THEN ""
       ELSE IF \E q \in P : fs2.files = Saved(fs, q, r.c).files THEN "the path in the answer is not that of the file"
       ELSE IF \E f \in fs.files : f \notin fs2.files /\ ~(f.p = Target(r)[2] /\ r.ow /\ ~r.rn) THEN "an existing file is replaced"
       ELSE IF {f \in fs2.files \ fs.files : f.c = r.c} = {} THEN "the file is not the tree"
       ELSE "the tree is saved in another place"

\* what a listing of a storage folder shows: paths with 1 for folders
Listing(fs, root, hidden) ==
  {x \in {<<p, 0>> : p \in Files(fs)} \cup {<<p, 1>> : p \in fs.dirs} :
     /\ x[1] = root \/ Under(root, x[1])
     /\ hidden \/ \A i \in (Len(root) + 1)..Len(x[1]) : SubSeq(x[1][i], 1, 1) # "."}
=============================================================================
