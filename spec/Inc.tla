--------------------------------- MODULE Inc ---------------------------------
(* Which files a unit is made of. A world is                                  *)
(*   dirs   directories, as sequences of names from the root                  *)
(*   files  sequence of [d, n, body]                                          *)
(*   list   the search list, directories                                      *)
(* A body is a sequence of                                                    *)
(*   [k |-> "mark", n]                a number the unit contains              *)
(*   [k |-> "inc", form, name]        form "q" quoted, "a" angle brackets;    *)
(*                                    "nq", "na": #include_next               *)
(*   [k |-> "has", form, name]        1 or 0: __has_include                   *)
(*   [k |-> "def", g]  [k |-> "und", g]  [k |-> "once"]                       *)
(*   [k |-> "line", name]             #line: the presumed name, which no search *)
(*                                    depends on                              *)
(*   [k |-> "if", pos, g, a, b]       #ifdef / #ifndef g a #else b #endif     *)
(* and a name is [abs, c]: components, from the root or relative.             *)
EXTENDS Integers, Sequences, FiniteSets

\* directory reached from d; what is outside of the root is nowhere
Nowhere == <<"?">>
IsDir(w, d) == d = <<>> \/ \E j \in 1..Len(w.dirs) : w.dirs[j] = d
RECURSIVE Walk(_, _, _, _)
Walk(w, d, c, i) ==
  IF i > Len(c) THEN d
  ELSE IF c[i] = "." THEN Walk(w, d, c, i + 1)
  ELSE IF c[i] = ".." THEN (IF d = <<>> \/ ~IsDir(w, SubSeq(d, 1, Len(d) - 1)) THEN Nowhere ELSE Walk(w, SubSeq(d, 1, Len(d) - 1), c, i + 1))
  ELSE IF IsDir(w, Append(d, c[i])) THEN Walk(w, Append(d, c[i]), c, i + 1)
  ELSE Nowhere
\* file with that name seen from directory d; 0 when there is none
Find(w, d, c) ==
  LET p == Walk(w, d, SubSeq(c, 1, Len(c) - 1), 1)
      s == {i \in 1..Len(w.files) : w.files[i].d = p /\ w.files[i].n = c[Len(c)]}
  IN IF d = Nowhere \/ p = Nowhere \/ s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
\* places are numbered: 0 for absolute names, 1 the directory of the including file, 2.. the list
Quoted(form) == form \in {"q", "nq"}
IsNext(form) == form \in {"nq", "na"}
Place(w, here, form, name, i) ==
  CASE i = 0 -> IF name.abs THEN Find(w, <<>>, name.c) ELSE 0
    [] i = 1 -> IF Quoted(form) /\ ~name.abs THEN Find(w, here, name.c) ELSE 0
    [] OTHER -> IF name.abs THEN 0 ELSE Find(w, w.list[i - 1], name.c)
\* where a directive finds its file: [f, at], f = 0 for not at all
Search(w, here, at, form, name) ==
  LET from == IF IsNext(form) THEN at + 1 ELSE 0
      s == {i \in from..(Len(w.list) + 1) : Place(w, here, form, name, i) # 0}
      i == CHOOSE i \in s : \A j \in s : i <= j
  IN IF s = {} THEN [f |-> 0, at |-> 0] ELSE [f |-> Place(w, here, form, name, i), at |-> i]

(* ---- the unit: st = [mac, once, out, err]; cx = [f, at, depth] *)
MostNested == 32
Emit(st, n) == [st EXCEPT !.out = Append(@, n)]
RECURSIVE Run(_, _, _, _, _), Item(_, _, _, _)
Run(w, cx, b, i, st) == IF i > Len(b) \/ st.err # "" THEN st ELSE Run(w, cx, b, i + 1, Item(w, cx, b[i], st))
Item(w, cx, x, st) ==
  CASE x.k = "mark" -> Emit(st, x.n)
    [] x.k = "def" -> [st EXCEPT !.mac = @ \cup {x.g}]
    [] x.k = "und" -> [st EXCEPT !.mac = @ \ {x.g}]
    [] x.k = "line" -> st
    [] x.k = "once" -> [st EXCEPT !.once = @ \cup {cx.f}]
    [] x.k = "if" -> Run(w, cx, IF x.pos <=> x.g \in st.mac THEN x.a ELSE x.b, 1, st)
    [] OTHER ->
       LET r == Search(w, w.files[cx.f].d, cx.at, x.form, x.name)
       IN IF x.k = "has" THEN Emit(st, IF r.f = 0 THEN 0 ELSE 1)
          ELSE IF r.f = 0 THEN [st EXCEPT !.err = "missing"]
          ELSE IF r.f \in st.once THEN st
          ELSE IF cx.depth >= MostNested THEN [st EXCEPT !.err = "deep"]
          ELSE Run(w, [f |-> r.f, at |-> r.at, depth |-> cx.depth + 1], w.files[r.f].body, 1, st)
Unit(w, f, macs) == Run(w, [f |-> f, at |-> 0, depth |-> 0], w.files[f].body, 1, [mac |-> macs, once |-> {}, out |-> <<>>, err |-> ""])

(* ---- a run: the directories of the sources join the list as they are added *)
\* idirs: the -I directories; rt: the runtime include directory; sys: those of the system; srcs: files; named: given with a directory in the name
UnitOf(c, i) == LET named == SelectSeq([j \in 1..i |-> j], LAMBDA j : c.named[j])
                    list == c.idirs \o c.rt \o [j \in 1..Len(named) |-> c.files[c.srcs[named[j]]].d] \o c.sys
                IN Unit([dirs |-> c.dirs, files |-> c.files, list |-> list], c.srcs[i], {c.macs[j] : j \in 1..Len(c.macs)})
Units(c) == [i \in 1..Len(c.srcs) |-> LET u == UnitOf(c, i) IN [out |-> u.out, err |-> u.err]]
=============================================================================
