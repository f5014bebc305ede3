------------------------------- MODULE Lines --------------------------------
(* Where in the sources something is: the presumed file and line of every     *)
(* construct, which __FILE__ and __LINE__ give and which messages name.       *)
(* A case: files, each with its name and a sequence of items; the first file  *)
(* is the one given to the compiler.  An item [k, n, ...] ends n lines below  *)
(* where it begins:                                                           *)
(*   "none"  comments, blank lines, definitions, multi-line invocations, ...  *)
(*   "mark"  b lines down: something that says where it is                    *)
(*   "warn"  b lines down: a warning                                          *)
(*   "err"   b lines down: an error                                           *)
(*   "line"  #line v, or with fs: #line v "f"                                 *)
(*   "inc"   #include of file i                                               *)
(*   "if", "elif", "else", "endif"  with c in {"const", "line"}: true when    *)
(*           v # 0, when the line is v                                        *)
EXTENDS Integers, Sequences

Frame(i, name) == [i |-> i, pc |-> 1, f |-> name, l |-> 1, g |-> <<>>]
On(fr) == \A j \in 1..Len(fr.g) : fr.g[j].on
Start(fs) == [st |-> <<Frame(1, fs[1].name)>>, out |-> <<>>, end |-> "no"]

\* the includes that led to the file read; a directive may span lines
Where(st, fs) == [j \in 1..(Len(st) - 1) |-> [f |-> st[j].f, l |-> st[j].l, to |-> st[j].l + fs[st[j].i].items[st[j].pc].n - 1]]
\* the place in the file read, and of the includes that led there
Place(w, t, st, b, fs) == [k |-> w, t |-> t, f |-> st[Len(st)].f, l |-> st[Len(st)].l + b, from |-> Where(st, fs)]
True(it, fr) == IF it.c = "line" THEN it.v = fr.l ELSE it.v # 0

Top(s, fr) == [s EXCEPT !.st = Append(SubSeq(s.st, 1, Len(s.st) - 1), fr)]
\* what comes next in file fr.i is item it
Do(s, it, fs) ==
  LET d == Len(s.st)
      fr == s.st[d]
      nx == [fr EXCEPT !.pc = fr.pc + 1, !.l = fr.l + it.n]
      k == Len(fr.g)
      \* groups around the innermost
      outer == \A j \in 1..(k - 1) : fr.g[j].on
      say(w) == [Top(s, nx) EXCEPT !.out = Append(s.out, Place(w, it.t, s.st, it.b, fs))]
  IN CASE it.k = "if" -> LET v == On(fr) /\ True(it, fr)
                         IN Top(s, [nx EXCEPT !.g = Append(fr.g, [on |-> v, was |-> v])])
       [] it.k = "elif" -> LET v == outer /\ ~fr.g[k].was /\ True(it, fr)
                           IN Top(s, [nx EXCEPT !.g[k] = [on |-> v, was |-> v \/ fr.g[k].was]])
       [] it.k = "else" -> Top(s, [nx EXCEPT !.g[k] = [on |-> ~fr.g[k].was, was |-> TRUE]])
       [] it.k = "endif" -> Top(s, [nx EXCEPT !.g = SubSeq(fr.g, 1, k - 1)])
       [] it.k = "none" \/ ~On(fr) -> Top(s, nx)
       [] it.k \in {"mark", "warn"} -> say(it.k)
       [] it.k = "err" -> [say("err") EXCEPT !.end = "err"]
       [] it.k = "line" -> Top(s, [nx EXCEPT !.l = it.v, !.f = IF it.fs THEN it.f ELSE fr.f])
       [] it.k = "inc" -> [s EXCEPT !.st = Append(s.st, Frame(it.i, fs[it.i].name))]
Step(s, fs) ==
  LET d == Len(s.st)
      fr == s.st[d]
  IN IF fr.pc <= Len(fs[fr.i].items) THEN Do(s, fs[fr.i].items[fr.pc], fs)
     ELSE IF d = 1 THEN [s EXCEPT !.end = "ok"]
     ELSE LET p == s.st[d - 1]          \* back after the directive
              n == fs[p.i].items[p.pc].n
          IN [s EXCEPT !.st = Append(SubSeq(s.st, 1, d - 2), [p EXCEPT !.pc = p.pc + 1, !.l = p.l + n])]
RECURSIVE Run(_, _)
Run(s, fs) == IF s.end # "no" THEN s ELSE Run(Step(s, fs), fs)
Said(fs) == LET s == Run(Start(fs), fs) IN [out |-> s.out, end |-> s.end]
=============================================================================
