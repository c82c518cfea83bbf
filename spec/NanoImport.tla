----------------------------- MODULE NanoImport -----------------------------
(* Source files: imports are relative to the importing file, every file is  *)
(* taken once, and all files are compiled as one program in the order in    *)
(* which they were first asked for.                                          *)
(*                                                                          *)
(* A file system is a sequence of [path |-> codes, text |-> codes]; a path  *)
(* ending in '/' is an empty directory.  The first one is the main source.  *)
EXTENDS NanoSema

Slash == 47
RECURSIVE SplitR(_, _, _, _)
SplitR(s, i, cur, acc) ==
  IF i > Len(s) THEN Append(acc, cur)
  ELSE IF s[i] = Slash THEN SplitR(s, i + 1, <<>>, Append(acc, cur))
  ELSE SplitR(s, i + 1, Append(cur, s[i]), acc)
Split(s) == SplitR(s, 1, <<>>, <<>>)

Butlast(s) == SubSeq(s, 1, Len(s) - 1)
Dot == <<46>>
DotDot == <<46, 46>>

\* components of a plain path in the file system
Comps(path) == SelectSeq(Split(path), LAMBDA c: c # <<>>)
IsFile(f) == f.path # <<>> /\ f.path[Len(f.path)] # Slash
\* the files that can be loaded: an empty one cannot
FilesOf(fs) == {Comps(fs[i].path) : i \in {j \in 1..Len(fs) : IsFile(fs[j]) /\ fs[j].text # <<>>}}
DirPrefixes(c) == {SubSeq(c, 1, n) : n \in 0..(Len(c) - 1)}
DirsOf(fs) == UNION {DirPrefixes(Comps(fs[i].path)) : i \in 1..Len(fs)}
              \cup {Comps(fs[i].path) : i \in {j \in 1..Len(fs) : ~IsFile(fs[j])}}

Nowhere == <<<<0>>>>
\* walk from directory at along the components cs
RECURSIVE Walk(_, _, _, _)
Walk(dirs, at, cs, i) ==
  IF at \notin dirs THEN Nowhere
  ELSE IF i = Len(cs) THEN
    (IF cs[i] \in {<<>>, Dot, DotDot} THEN Nowhere ELSE Append(at, cs[i]))
  ELSE IF cs[i] \in {<<>>, Dot} THEN Walk(dirs, at, cs, i + 1)
  ELSE IF cs[i] = DotDot THEN (IF at = <<>> THEN Nowhere ELSE Walk(dirs, Butlast(at), cs, i + 1))
  ELSE Walk(dirs, Append(at, cs[i]), cs, i + 1)

\* a file system to look things up in: directories, and the text of each file
Store(fs) ==
  LET cs == [i \in 1..Len(fs) |-> IF IsFile(fs[i]) THEN Comps(fs[i].path) ELSE <<>>]
      at == [c \in FilesOf(fs) |-> SelectInSeq(cs, LAMBDA x: x = c)]
  IN [dirs |-> DirsOf(fs), text |-> [c \in DOMAIN at |-> fs[at[c]].text], first |-> fs[1].text]

\* the imports of one file (fs: a Store): srcs grows by the new files, or the line of a failure
RECURSIVE Imports(_, _, _, _, _)
Imports(fs, srcs, dir, ds, i) ==
  IF i > Len(ds) THEN [ok |-> TRUE, srcs |-> srcs]
  ELSE IF ds[i].k # "import" THEN Imports(fs, srcs, dir, ds, i + 1)
  ELSE LET c == Walk(fs.dirs, dir, Split(ds[i].path), 1) IN
    IF \E j \in 1..Len(srcs) : srcs[j] = c THEN Imports(fs, srcs, dir, ds, i + 1)
    ELSE IF c = Nowhere \/ c \notin DOMAIN fs.text THEN [ok |-> FALSE, line |-> ds[i].ln, m |-> <<"import", ds[i].path>>]
    ELSE Imports(fs, Append(srcs, c), dir, ds, i + 1)

RECURSIVE FrontEndR(_, _, _, _)
FrontEndR(fs, srcs, i, acc) ==
  IF i > Len(srcs) THEN [ok |-> TRUE, ds |-> acc, srcs |-> srcs]
  ELSE LET r == Parse(IF srcs[i] = <<>> THEN fs.first ELSE fs.text[srcs[i]], i - 1)
           im == Imports(fs, srcs, IF srcs[i] = <<>> THEN <<>> ELSE Butlast(srcs[i]), r.ds, 1)
       IN IF ~im.ok THEN [ok |-> FALSE, line |-> im.line, m |-> im.m]
          ELSE IF ~r.ok THEN [ok |-> FALSE, line |-> r.line, m |-> r.m]
          ELSE FrontEndR(fs, im.srcs, i + 1, acc \o r.ds)

\* all declarations of the program whose main source is fs[1]
FrontEnd(fs) == FrontEndR(Store(fs), <<Comps(fs[1].path)>>, 1, <<>>)

\* several main sources, asked for by paths from the working directory: the
\* sources, or the number of the first one that cannot be loaded
Roots(fs, paths) ==
  FoldLeft(LAMBDA a, p:
    IF ~a.ok THEN a
    ELSE LET c == Walk(DirsOf(fs), <<>>, Split(p), 1) IN
      IF \E j \in 1..Len(a.srcs) : a.srcs[j] = c THEN a
      ELSE IF c = Nowhere \/ c \notin FilesOf(fs) THEN [a EXCEPT !.ok = FALSE]
      ELSE [a EXCEPT !.srcs = Append(@, c)], [ok |-> TRUE, srcs |-> <<>>], paths)
FrontEndOf(fs, srcs) == FrontEndR(Store(fs), srcs, 1, <<>>)
=============================================================================
