----------------------------- MODULE LazyArray -----------------------------
(***************************************************************************)
(* Lazily loaded arrays (C26).  Sources are stored arrays whose content    *)
(* changes version over time (the checkpoint on disk is rewritten).  A     *)
(* lazy array is a handle on a source with a declared dtype; casting makes *)
(* a new handle.  Only a demand for the value touches the source.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Sources, MaxHandles, MaxVer, MaxOps, Dts
Modes == {"get", "async", "threads", "gather"}

VARIABLES h,      \* sequence of handles [src, chain]: chain = dtypes cast to, in order
          ver,    \* current version of every source
          seen,   \* versions a demand on the source may have read so far
          out, n
vars == <<h, ver, seen, out, n>>

Init == /\ h = [i \in 1..Cardinality(Sources) |-> [src |-> i, chain |-> <<>>]]
        /\ ver = [s \in Sources |-> 1]
        /\ seen = [s \in Sources |-> {}]
        /\ out = [op |-> "init"]
        /\ n = 0

Tick(S) == {x \in S : n < MaxOps}
Count == n < MaxOps /\ n' = n + 1

Cast == /\ Count /\ Len(h) < MaxHandles
        /\ \E i \in DOMAIN h, dt \in Tick(Dts) :
             /\ h' = Append(h, [src |-> h[i].src, chain |-> Append(h[i].chain, dt)])
             /\ out' = [op |-> "cast", i |-> i, dt |-> dt]
        /\ UNCHANGED <<ver, seen>>
Swap == /\ Count
        /\ \E s \in Tick(Sources) :
             /\ ver[s] < MaxVer
             /\ ver' = [ver EXCEPT ![s] = @ + 1]
             /\ out' = [op |-> "swap", src |-> s, ver |-> ver[s] + 1]
        /\ UNCHANGED <<h, seen>>
\* A demand yields the current version, or (a cache) one demanded before.
Get == /\ Count
       /\ \E i \in DOMAIN h, m \in Tick(Modes) :
            LET s == h[i].src
            IN /\ seen' = [seen EXCEPT ![s] = @ \cup {ver[s]}]
               /\ out' = [op |-> "get", i |-> i, mode |-> m, vers |-> seen[s] \cup {ver[s]},
                          chain |-> h[i].chain]
       /\ UNCHANGED <<h, ver>>
\* All handles at once, from concurrent readers.
GetAll == /\ Count
          /\ \E m \in Tick({"threads", "gather"}) :
               out' = [op |-> "getall", mode |-> m,
                       vers |-> [i \in DOMAIN h |-> seen[h[i].src] \cup {ver[h[i].src]}]]
          /\ seen' = [s \in Sources |-> seen[s] \cup {ver[s]}]
          /\ UNCHANGED <<h, ver>>
Declare == /\ Count
           /\ \E i \in DOMAIN h : out' = [op |-> "declare", i |-> i, chain |-> h[i].chain]
           /\ UNCHANGED <<h, ver, seen>>
Next == Cast \/ Swap \/ Get \/ GetAll \/ Declare
Spec == Init /\ [][Next]_vars

TypeOK == \A s \in Sources : seen[s] \subseteq 1..ver[s]
\* Nothing is read before a demand, and then only what is there.
OnDemand == out.op = "get" => \E s \in Sources : ver[s] \in out.vers
\* Casting changes no existing handle and touches no source.
CastIsPure == [][Len(h') > Len(h) => SubSeq(h', 1, Len(h)) = h /\ seen' = seen /\ ver' = ver]_vars
\* A first demand sees the current content only.
Fresh == [][out'.op = "get" /\ seen[h[out'.i].src] = {}
            => out'.vers = {ver[h[out'.i].src]}]_vars
=============================================================================
