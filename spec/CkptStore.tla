------------------------------ MODULE CkptStore ------------------------------
(* What a user sees of a checkpoint directory: the checkpoints under their    *)
(* final names, whether each one restores (ok), holds the data-iterator state *)
(* of every data shard (ds) and is pinned (pin).  A job saves, crashes,       *)
(* restarts, restores; operators pin and unpin.  Retention (C02) is a         *)
(* parameter; Keep = 0 stands for "no limit".                                 *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Steps,      \* step numbers used by the bounded model
          Keep, KeepDs, \* retention limits, 0 = unlimited
          Ordered       \* TRUE: a job only saves steps newer than all visible

VARIABLES vis,    \* [step -> [ok, ds, pin]]
          phase,  \* "idle" | "saving" | "down"
          cur,    \* step of the save in progress
          pub,    \* the save in progress has published its checkpoint
          got     \* result of the last restore: step, -2 (error) or -1 (none)

vars == <<vis, phase, cur, pub, got>>

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Dom == DOMAIN vis
Full == [ok |-> TRUE, ds |-> TRUE, pin |-> FALSE]
Restrict(f, S) == [x \in S |-> f[x]]

(* ------------------------------ retention ------------------------------ *)
Newer(v, s) == {u \in DOMAIN v : u > s}
DsSteps(v) == {u \in DOMAIN v : v[u].ds}

\* A checkpoint may be deleted (a deletion may be visible half done) only if
\* it is not pinned and `keep` newer checkpoints exist, one of them complete.
Removable(v, s, keep) ==
  /\ keep > 0
  /\ ~v[s].pin
  /\ Cardinality(Newer(v, s)) >= keep
  /\ \E u \in Newer(v, s) : v[u].ok

DsRemovable(v, s, keepds) ==
  /\ keepds > 0
  /\ ~v[s].pin
  /\ Cardinality({u \in DsSteps(v) : u > s}) >= keepds

\* What must hold of a directory when a save has returned.
Pruned(v, keep) ==
  keep > 0 => \A s \in DOMAIN v : Cardinality(Newer(v, s)) >= keep => v[s].pin
DsPruned(v, keepds) ==
  keepds > 0 => \A s \in DsSteps(v) :
      Cardinality({u \in DsSteps(v) : u > s}) >= keepds => v[s].pin

(* A change of the visible state by a job that is saving step c: it may       *)
(* publish c, complete at once, and delete what retention allows.             *)
VisStep(v, w, c, keep, keepds) ==
  /\ \A s \in DOMAIN w \ DOMAIN v : s = c /\ w[s].ok /\ w[s].ds /\ ~w[s].pin
  /\ LET both == v @@ w    \* v first: states before deletion, plus the new one
     IN /\ \A s \in DOMAIN v \ DOMAIN w : Removable(both, s, keep)
        /\ \A s \in DOMAIN v \cap DOMAIN w :
             /\ w[s].pin = v[s].pin \/ Removable(both, s, keep)
             /\ w[s].ok # v[s].ok => (v[s].ok /\ Removable(both, s, keep))
             /\ w[s].ds # v[s].ds =>
                  (v[s].ds /\ (Removable(both, s, keep) \/ DsRemovable(both, s, keepds)))

(* -------------------------------- actions ------------------------------ *)
StartSave(s) ==
  /\ phase = "idle"
  /\ (Ordered => \A u \in Dom : u <= s)
  /\ phase' = "saving" /\ cur' = s /\ pub' = FALSE /\ UNCHANGED <<vis, got>>

Publish ==
  /\ phase = "saving" /\ cur \notin Dom
  /\ vis' = vis @@ (cur :> Full) /\ pub' = TRUE
  /\ UNCHANGED <<phase, cur, got>>

Damage(s) ==   \* a deletion in progress
  /\ phase = "saving" /\ cur \in Dom /\ s \in Dom /\ vis[s].ok
  /\ Removable(vis, s, Keep)
  /\ vis' = [vis EXCEPT ![s].ok = FALSE, ![s].ds = FALSE]
  /\ UNCHANGED <<phase, cur, pub, got>>

Remove(s) ==
  /\ phase = "saving" /\ cur \in Dom /\ s \in Dom
  /\ Removable(vis, s, Keep)
  /\ vis' = Restrict(vis, Dom \ {s})
  /\ UNCHANGED <<phase, cur, pub, got>>

DropDs(s) ==
  /\ phase = "saving" /\ cur \in Dom /\ s \in Dom /\ vis[s].ds
  /\ DsRemovable(vis, s, KeepDs)
  /\ vis' = [vis EXCEPT ![s].ds = FALSE]
  /\ UNCHANGED <<phase, cur, pub, got>>

EndSave ==
  /\ phase = "saving"
  /\ pub \/ cur \in Dom    \* an already visible step is left alone
  /\ pub => Pruned(vis, Keep) /\ DsPruned(vis, KeepDs)
  /\ (\A u \in Dom : u <= cur) => cur \in Dom
  /\ phase' = "idle" /\ UNCHANGED <<vis, cur, pub, got>>

Crash ==
  /\ phase \in {"idle", "saving"}
  /\ phase' = "down" /\ UNCHANGED <<vis, cur, pub, got>>

Newest(v) == IF DOMAIN v = {} THEN -2 ELSE Max(DOMAIN v)

Restore ==   \* a (re)started job restores the newest checkpoint
  /\ phase \in {"down", "idle"}
  /\ got' = Newest(vis)
  /\ phase' = "idle" /\ UNCHANGED <<vis, cur, pub>>

Pin(s, b) ==
  /\ phase \in {"idle", "down"} /\ s \in Dom /\ vis[s].ok
  /\ vis' = [vis EXCEPT ![s].pin = b]
  /\ UNCHANGED <<phase, cur, pub, got>>

Init == vis = <<>> /\ phase = "idle" /\ cur = -1 /\ pub = FALSE /\ got = -1

Next == \/ \E s \in Steps : StartSave(s) \/ Damage(s) \/ Remove(s) \/ DropDs(s)
        \/ \E s \in Steps, b \in BOOLEAN : Pin(s, b)
        \/ Publish \/ EndSave \/ Crash \/ Restore

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
TypeOK == /\ DOMAIN vis \subseteq Steps
          /\ phase \in {"idle", "saving", "down"}
NewestComplete == Dom # {} => vis[Max(Dom)].ok /\ (KeepDs # 0 \/ vis[Max(Dom)].ds)
NewestHasIterator == Dom # {} => vis[Max(Dom)].ds
\* progress is never lost: the newest checkpoint only gets newer
Monotone == [][Dom # {} => Dom' # {} /\ Max(Dom') >= Max(Dom)]_vars
PinnedStay == [][\A s \in Dom : vis[s].pin => s \in DOMAIN vis' /\ vis'[s].ok]_vars
GotWasComplete == [][got' # got /\ got' >= 0 => vis[got'].ok /\ vis[got'].ds]_vars
\* the composed step used for trace checking covers every single action
StepsCovered == [][phase = "saving" /\ phase' = "saving"
                     => VisStep(vis, vis', cur, Keep, KeepDs)]_vars
EndedPruned == [][phase = "saving" /\ phase' = "idle"
                   => /\ pub => Pruned(vis', Keep)
                      /\ Ordered => cur \in DOMAIN vis']_vars
=============================================================================
