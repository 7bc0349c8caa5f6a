----------------------------- MODULE CkptValue -----------------------------
(***************************************************************************)
(* What a restored train state is worth (C04).  A job with a current state *)
(* advances, saves checkpoints through the classic or the Orbax-backed     *)
(* API, and restores through either of them or through the model-free      *)
(* loader.  The value of a state is abstracted to                          *)
(*   id     the training step whose values it holds,                       *)
(*   dt     the dtype of its parameters ("target" leaves), and             *)
(*   rnd    whether its parameters went through a narrower dtype;          *)
(* leaves outside "target" are never cast.  pos is the position of the     *)
(* data iterator.  `out` is what the last operation returned.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxId,     \* largest training step
          Dtypes,    \* dtypes that may be asked for, subset of {"f32","bf16"}
          Layouts,   \* partitionings: 1..n
          Forms,     \* ways of writing a path: {"dir","slash","file"}
          MaxOps

None == "none"
VARIABLES dir,   \* [steps with a checkpoint -> checkpoint]
          cur,   \* current state [id, dt, rnd]
          pos,   \* data iterator position
          out,   \* result of the last operation
          n      \* operations so far
vars == <<dir, cur, pos, out, n>>

Cast(v, dt) == IF dt = None THEN v
               ELSE [id |-> v.id, dt |-> dt, rnd |-> v.rnd \/ dt = "bf16"]

Max(S) == CHOOSE x \in S : \A y \in S : y <= x

Init ==
  /\ dir = <<>>
  /\ cur = [id |-> 0, dt |-> "f32", rnd |-> FALSE]
  /\ pos = 0
  /\ out = [op |-> "init"]
  /\ n = 0

Advance(k) ==
  /\ cur.id + k <= MaxId
  \* a training step recomputes the parameters, in their own dtype
  /\ cur' = [id |-> cur.id + k, dt |-> "f32", rnd |-> FALSE]
  /\ pos' = pos + k
  /\ out' = [op |-> "advance", k |-> k]
  /\ UNCHANGED dir

\* One save per step (the training loop never saves a step twice).
Save(fmt, sdt, lay, ds) ==
  /\ cur.id \notin DOMAIN dir
  /\ dir' = dir @@ (cur.id :> [fmt |-> fmt, v |-> Cast(cur, sdt), pos |-> pos, ds |-> ds])
  /\ out' = [op |-> "save", fmt |-> fmt, sdt |-> sdt, lay |-> lay, ds |-> ds]
  /\ UNCHANGED <<cur, pos>>

\* The checkpoints an API can see.
Visible(api) == IF api = "orbax" THEN DOMAIN dir
                ELSE {s \in DOMAIN dir : dir[s].fmt = "classic"}

\* The step a request denotes, or NoStep.
NoStep == MaxId + 1
Target(api, req, s) ==
  IF req = "latest"  \* the newest of all; an error if the API cannot read it
  THEN IF DOMAIN dir # {} /\ Max(DOMAIN dir) \in Visible(api) THEN Max(DOMAIN dir) ELSE NoStep
  ELSE IF s \in Visible(api) THEN s ELSE NoStep

Restore(api, req, s, form, rdt, lazy, lay, ds) ==
  /\ req = "latest" => s = 0
  /\ req # "path" => form = "dir"
  /\ form = "file" => s \in DOMAIN dir /\ dir[s].fmt = "classic" /\ api # "orbax"
  /\ api = "orbax" => ~lazy
  /\ LET t == Target(api, req, s)
         got == t # NoStep
         res == IF got THEN [ok |-> TRUE, v |-> Cast(dir[t].v, rdt)] ELSE [ok |-> FALSE]
     IN /\ ds => (got /\ dir[t].ds /\ api # "load")
        /\ out' = [op |-> "restore", api |-> api, req |-> req, step |-> s, form |-> form,
                   rdt |-> rdt, lazy |-> lazy, lay |-> lay, ds |-> ds, res |-> res]
        /\ cur' = IF got /\ api # "load" THEN res.v ELSE cur
        \* the Orbax API skips the iterator of a classic checkpoint
        /\ pos' = IF got /\ ds /\ ~(api = "orbax" /\ dir[t].fmt = "classic")
                  THEN dir[t].pos ELSE pos
        /\ UNCHANGED dir

DT == Dtypes \cup {None}
Apis == {"classic", "orbax", "load"}
\* Tick's result is never constant-level, which keeps TLC from splitting an
\* action into one per parameter value (simulation picks among actions first).
Tick(S) == {x \in S : n < MaxOps}
Count == n < MaxOps /\ n' = n + 1
DoAdvance == Count /\ \E k \in Tick(1..2) : Advance(k)
DoSave == Count /\ \E fmt \in Tick({"classic", "orbax"}), sdt \in Tick(DT), lay \in Tick(Layouts),
                      ds \in Tick(BOOLEAN) : Save(fmt, sdt, lay, ds)
DoRestore == Count /\ \E api \in Tick(Apis), req \in Tick({"latest", "step", "path"}),
                         s \in DOMAIN dir \cup {0}, form \in Tick(Forms), rdt \in Tick(DT),
                         lazy \in Tick(BOOLEAN), lay \in Tick(Layouts), ds \in Tick(BOOLEAN) :
               /\ Target(api, req, s) # NoStep
               /\ Restore(api, req, s, form, rdt, lazy, lay, ds)
\* (an instance of DoRestore with the iterator, to generate it more often)
DoRestoreIt == Count /\ \E api \in Tick({"classic", "orbax"}), req \in Tick({"latest", "step", "path"}),
                         s \in DOMAIN dir \cup {0}, form \in Tick(Forms), rdt \in Tick(DT),
                         lay \in Tick(Layouts) :
               /\ Target(api, req, s) # NoStep
               /\ Restore(api, req, s, form, rdt, FALSE, lay, TRUE)
DoMiss == Count /\ \E api \in Tick(Apis), req \in Tick({"latest", "step", "path"}),
                      s \in Tick(0..MaxId), form \in Tick(Forms), lazy \in Tick(BOOLEAN),
                      lay \in Tick(Layouts) :
               /\ Target(api, req, s) = NoStep
               /\ Restore(api, req, s, form, None, lazy, lay, FALSE)
Next == DoAdvance \/ DoSave \/ DoRestore \/ DoRestoreIt \/ DoMiss
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TypeOK ==
  /\ cur.id \in 0..MaxId /\ cur.dt \in {"f32", "bf16"}
  /\ \A s \in DOMAIN dir : dir[s].v.id = s
\* A checkpoint never changes once it is there.
Immutable == [][\A s \in DOMAIN dir : s \in DOMAIN dir' /\ dir'[s] = dir[s]]_vars
\* What was asked for is what comes back.
RightStep ==
  out.op = "restore" /\ out.res.ok =>
    IF out.req = "latest"
    THEN \A s \in DOMAIN dir : s <= out.res.v.id
    ELSE out.res.v.id = out.step
RightDtype ==
  out.op = "restore" /\ out.res.ok =>
    /\ out.rdt # None => out.res.v.dt = out.rdt
    /\ out.rdt = None => out.res.v.dt = dir[out.res.v.id].v.dt
\* A full-precision chain changes nothing.
Exact ==
  out.op = "restore" /\ out.res.ok =>
    (~out.res.v.rnd => out.rdt \in {None, "f32"})
=============================================================================
