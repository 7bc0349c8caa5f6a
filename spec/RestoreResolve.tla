--------------------------- MODULE RestoreResolve ---------------------------
(***************************************************************************)
(* The meaning of a preference-ordered list of restore configurations over *)
(* a file system (C05).                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o Asc(S \ {Min(S)})
\* fs: path -> [isdir, tf (sequence of TensorFlow checkpoint paths), steps].
\* Result: [err] or [cfg |-> index or 0, paths |-> sequence of <<path, step>>];
\* step -1: the path itself.
Found(fs, p, mode) ==
  LET d == fs[p]
      all == IF d.tf # <<>> THEN [i \in DOMAIN d.tf |-> <<d.tf[i], -1>>]
             ELSE [i \in DOMAIN Asc(d.steps) |-> <<p, Asc(d.steps)[i]>>]
  IN IF mode = "latest" /\ all # <<>> THEN <<all[Len(all)]>> ELSE all
RECURSIVE FirstDir(_, _, _)
\* "err", <<>> or the checkpoints of the first directory that has any
FirstDir(fs, ps, mode) ==
  IF ps = <<>> THEN [err |-> FALSE, paths |-> <<>>]
  ELSE IF ~fs[Head(ps)].isdir THEN [err |-> TRUE, paths |-> <<>>]
  ELSE IF Found(fs, Head(ps), mode) # <<>>
       THEN [err |-> FALSE, paths |-> Found(fs, Head(ps), mode)]
  ELSE FirstDir(fs, Tail(ps), mode)
RECURSIVE ResolveFrom(_, _, _)
ResolveFrom(fs, cfgs, i) ==
  IF i > Len(cfgs) THEN [err |-> FALSE, cfg |-> 0, paths |-> <<>>]
  ELSE IF cfgs[i].mode = "specific"
       THEN [err |-> FALSE, cfg |-> i,
             paths |-> [k \in DOMAIN cfgs[i].paths |-> <<cfgs[i].paths[k], -1>>]]
  ELSE LET f == FirstDir(fs, cfgs[i].paths, cfgs[i].mode)
       IN IF f.err THEN [err |-> TRUE, cfg |-> 0, paths |-> <<>>]
          ELSE IF f.paths # <<>> THEN [err |-> FALSE, cfg |-> i, paths |-> f.paths]
          ELSE ResolveFrom(fs, cfgs, i + 1)
Resolve(fs, cfgs) == ResolveFrom(fs, cfgs, 1)
----------------------------------------------------------------------------
\* A recorded call: c.fs is a sequence of [path, isdir, tf, steps].
Fs(c) == [p \in {c.fs[i].path : i \in DOMAIN c.fs} |->
           LET d == c.fs[CHOOSE i \in DOMAIN c.fs : c.fs[i].path = p]
           IN [isdir |-> d.isdir, tf |-> d.tf, steps |-> {d.steps[i] : i \in DOMAIN d.steps}]]
Ok(c) == LET want == Resolve(Fs(c), c.cfgs)
         IN IF want.err THEN c.err
            ELSE ~c.err /\ c.cfg = want.cfg /\ c.paths = want.paths
----------------------------------------------------------------------------
\* The initial train state of a job.  c.fs[i].run: the run whose checkpoints
\* are in that directory; got: the states, with where they came from.
Specific(c, p) == {<<d, s>> \in (DOMAIN Fs(c)) \X (0..9) : p = d \o "/checkpoint_" \o ToString(s)}
Place(c, x) == IF x[2] >= 0 THEN x ELSE CHOOSE y \in Specific(c, x[1]) : TRUE
RunOf(c, p) == c.fs[CHOOSE i \in DOMAIN c.fs : c.fs[i].path = p].run
OkInit(c) ==
  LET want == Resolve(Fs(c), c.cfgs)
      ps == [i \in DOMAIN want.paths |-> Place(c, want.paths[i])]
      gone == \E i \in DOMAIN ps : ps[i][2] \notin Fs(c)[ps[i][1]].steps
      ds == IF want.cfg = 0 THEN FALSE ELSE c.cfgs[want.cfg].ds
      scratch == [path |-> "", at |-> -1, step |-> 0, run |-> 7]
      full == [i \in DOMAIN ps |-> [path |-> ps[i][1], at |-> ps[i][2], step |-> ps[i][2], run |-> RunOf(c, ps[i][1])]]
      few == [i \in DOMAIN full |-> [full[i] EXCEPT !.path = "", !.at = -1]]
  IN IF want.err \/ gone \/ (c.op # "all" /\ Len(ps) > 1) THEN c.err
     ELSE /\ ~c.err
          /\ c.got = CASE c.op = "all" -> full
                       [] ps # <<>> -> few
                       [] c.op = "one" -> <<>>
                       [] OTHER -> <<scratch>>
          \* the data iterator goes on where the last restored state stopped
          /\ c.pos = IF ds /\ ps # <<>> THEN ps[Len(ps)][2] ELSE 0
=============================================================================
