-------------------------------- MODULE Libs --------------------------------
(* Resolving `-l name`: search path, symbolic links, linker scripts.          *)
(* A file system is a sequence of entries [dir, name, kind, id, todir, toname,*)
(* items]; kind is "elf" (identity id), "link" (to todir/toname), "script"    *)
(* (items) or "dir". A script item is [how, dir, name, lib]: how is "abs"      *)
(* (dir/name), "rel" (name in the search path) or "l" (lib<lib>.so in the      *)
(* search path).                                                              *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

None == [kind |-> "none", id |-> "", items |-> <<>>, name |-> ""]
Lookup(fs, d, n) ==
  LET hits == {i \in 1..Len(fs) : fs[i].dir = d /\ fs[i].name = n}
  IN IF hits = {} THEN None ELSE fs[CHOOSE i \in hits : TRUE]

\* what opening d/n reaches; links may chain, dangle or loop
RECURSIVE Follow(_, _, _, _)
Follow(fs, d, n, fuel) ==
  LET e == Lookup(fs, d, n)
  IN IF e.kind = "link" THEN (IF fuel = 0 THEN None ELSE Follow(fs, e.todir, e.toname, fuel - 1)) ELSE e
Open(fs, d, n) == Follow(fs, d, n, 20)
IsFile(e) == e.kind \in {"elf", "script"}

\* the order of the search: -L, current directory, system configuration
Path(c) == c.L \o <<c.cwd>> \o c.conf

\* the search machine: one directory per step
RECURSIVE Search(_, _, _)
Search(fs, path, n) ==
  IF path = <<>> THEN None
  ELSE LET e == Open(fs, Head(path), n) IN IF IsFile(e) THEN e ELSE Search(fs, Tail(path), n)

LibName(l) == "lib" \o l \o ".so"
\* names are looked up in a table because TLA+ strings are atomic here
Target(c, it) == IF it.how = "abs" THEN Open(c.fs, it.dir, it.name)
                 ELSE Search(c.fs, Path(c), it.name)

\* state: files loaded so far, names reported missing, still to do
Add(s, e) == IF e.id \in ToSet(s.loaded) THEN s ELSE [s EXCEPT !.loaded = Append(@, e.id)]
RECURSIVE Script(_, _, _)
Script(c, s, items) ==
  IF items = <<>> THEN s
  ELSE LET e == Target(c, Head(items))
       IN IF ~IsFile(e) THEN [s EXCEPT !.missing = Append(@, Head(items).name), !.open = TRUE]
          ELSE Script(c, Add(s, e), Tail(items))
One(c, s, n) ==
  LET e == Search(c.fs, Path(c), n)
  IN CASE e.kind = "elf" -> Add(s, e)
       [] e.kind = "script" -> Script(c, s, e.items)
       [] OTHER -> [s EXCEPT !.missing = Append(@, n)]
\* c.libs: the file names lib<name>.so of the -l options in order
RECURSIVE All(_, _, _)
All(c, s, libs) == IF libs = <<>> THEN s ELSE All(c, One(c, s, Head(libs)), Tail(libs))

\* open: a script named a missing file, what is loaded is not specified further
Outcome(c) == All(c, [loaded |-> <<>>, missing |-> <<>>, open |-> FALSE], c.libs)

\* ---- the system's configuration file, by line: a line whose first character
\* is a slash names a directory
ConfDirs(lines) == SelectSeq(lines, LAMBDA l : l # <<>> /\ l[1] = "/")
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* main file first, then the files of the configuration directory by name
Conf(c) == ConfDirs(c.main) \o Flat([i \in 1..Len(c.files) |-> ConfDirs(c.files[i])])
==============================================================================
