------------------------------ MODULE Partition ------------------------------
(* Who owns what (C14).  A mesh is a grid of devices with named axes; every     *)
(* device sits on a host.  A dimension sharded over axes is cut into as many    *)
(* equal blocks as there are devices along them, in row-major order.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Unravel(_, _)
(* coordinates (from 0) of the n-th (from 0) cell of a grid, row-major *)
Unravel(n, dims) == IF dims = <<>> THEN <<>>
                    ELSE LET w == Prod(Tail(dims)) IN <<n \div w>> \o Unravel(n % w, Tail(dims))
At(names, a) == CHOOSE i \in DOMAIN names : names[i] = a
(* axes a dimension is sharded over: a sequence of names; <<>>: not sharded *)
RECURSIVE Pos(_, _, _, _)
Pos(m, coord, axes, acc) == IF axes = <<>> THEN acc
                            ELSE LET i == At(m.names, Head(axes)) IN Pos(m, coord, Tail(axes), acc * m.dims[i] + coord[i])
Count(m, axes) == Prod([i \in DOMAIN axes |-> m.dims[At(m.names, axes[i])]])
(* block of a dimension of some size that a device holds: <<from, to>>, to exclusive *)
Block(m, coord, axes, size) == LET n == Count(m, axes) p == Pos(m, coord, axes, 0)
                               IN <<p * (size \div n), (p + 1) * (size \div n)>>
Cells(m, h) == {Unravel(d - 1, m.dims) : d \in {e \in DOMAIN m.hosts : m.hosts[e] = h}}
Hosts(m) == Range(m.hosts)
Rows(b) == b[1]..(b[2] - 1)
(* rows of one dimension on the devices of a host *)
Held(m, h, axes, size) == UNION {Rows(Block(m, c, axes, size)) : c \in Cells(m, h)}
----------------------------------------------------------------------------
(* chunks: per host (from 0), the slice of every dimension, and its replica id *)
Volume(sl) == Prod([i \in DOMAIN sl |-> sl[i][2] - sl[i][1]])
Apart(s, t) == \E i \in DOMAIN s : s[i][2] <= t[i][1] \/ t[i][2] <= s[i][1]
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN Volume(s) + Sum(S \ {s})
TilesExactly(shape, ch) ==
  LET S == {ch[h].slice : h \in DOMAIN ch}
  IN /\ \A s \in S : Len(s) = Len(shape) /\ \A i \in DOMAIN shape : s[i][1] >= 0 /\ s[i][1] < s[i][2] /\ s[i][2] <= shape[i]
     /\ \A s \in S : \A u \in S : s = u \/ Apart(s, u)
     /\ Sum(S) = Prod(shape)
OneWriter(ch) ==
  \A h \in DOMAIN ch : LET same == {k \in DOMAIN ch : ch[k].slice = ch[h].slice}
                       IN /\ Cardinality({k \in same : ch[k].replica = 0}) = 1
                          /\ \A j \in same : \A k \in same : j = k \/ ch[j].replica # ch[k].replica
(* a host's chunk is what lies on its devices *)
OnDevices(m, a) ==
  \A h \in DOMAIN a.chunks : \A i \in DOMAIN a.shape :
    Rows(a.chunks[h].slice[i]) = Held(m, h - 1, a.axes[i], a.shape[i])
Even(m, a) == \A i \in DOMAIN a.shape : a.shape[i] % Count(m, a.axes[i]) = 0
ArrayOk(m, a) ==
  IF a.raised THEN ~Even(m, a)
  ELSE TilesExactly(a.shape, a.chunks) /\ OneWriter(a.chunks) /\ (Even(m, a) => OnDevices(m, a))
----------------------------------------------------------------------------
(* layouts: per host batch, shard, shards, first; asked: 0 for none *)
LayoutOk(m, data, y) ==
  LET n == Count(m, data)
      B == IF y.asked = 0 THEN n ELSE y.asked
      L == y.hosts
  IN IF B % n # 0 THEN y.raised
     ELSE /\ ~y.raised
          /\ \A h \in DOMAIN L : L[h].batch = B /\ L[h].shards = L[1].shards /\ B % L[h].shards = 0
          /\ {L[h].shard : h \in DOMAIN L} = 0..(L[1].shards - 1)
          /\ \A s \in 0..(L[1].shards - 1) : Cardinality({h \in DOMAIN L : L[h].shard = s /\ L[h].first}) = 1
          (* the rows of its shard are those that lie on its devices *)
          /\ \A h \in DOMAIN L : LET per == B \div L[h].shards
                                 IN Held(m, h - 1, data, B) = (L[h].shard * per)..((L[h].shard + 1) * per - 1)
----------------------------------------------------------------------------
(* the mesh: every device once; on grids, model-parallel groups are boxes of the asked shape *)
Every(c) == Len(c.mesh.ids) = c.devices /\ Range(c.mesh.ids) = 0..(c.devices - 1) /\ Len(c.mesh.hosts) = c.devices
            /\ Prod(c.mesh.dims) = c.devices
Boxes(c) ==
  LET w == Prod(c.tile) IN
  /\ c.mesh.dims = <<c.devices \div w, w>>
  /\ \A r \in 0..(c.devices \div w - 1) :
       LET G == {c.coords[r * w + j] : j \in 1..w}
       IN \A i \in 1..4 : LET X == {p[i] : p \in G} IN \E lo \in X : lo % c.tile[i] = 0 /\ X = lo..(lo + c.tile[i] - 1)
Fits(x, y) == x % y = 0 \/ y % x = 0
ZMajor(c) == LET g == c.grid t == c.tile IN
             \/ t[1] = g[1] /\ g[1] > 1 /\ t[2] = 1 /\ t[3] = 1
             \/ t[1] = 1 /\ t[2] = g[2] /\ g[2] > 1 /\ t[3] = g[3] /\ g[3] > 1
             \/ t[2] = g[2] /\ g[2] > 1 /\ t[1] = 1 /\ t[3] = 1
             \/ t[2] = 1 /\ t[1] = g[1] /\ g[1] > 1 /\ t[3] = g[3] /\ g[3] > 1
Feasible(c) == \A i \in 1..4 : c.grid[i] % c.tile[i] = 0 /\ Fits(c.tile[i], c.local[i])
Ok(c) ==
  IF c.rejected # ""
  THEN (c.kind = "grid" /\ (~Feasible(c) \/ (ZMajor(c) /\ (c.tile[4] # c.grid[4] \/ c.local[3] > 1)))) \/ c.mayreject
  ELSE /\ Every(c)
       /\ c.kind = "grid" => (\A i \in 1..4 : c.grid[i] % c.tile[i] = 0) /\ Boxes(c)
       /\ c.partitions > 0 => c.mesh.dims[Len(c.mesh.dims)] = c.partitions
       /\ \A i \in DOMAIN c.arrays : ArrayOk(c.mesh, c.arrays[i])
       /\ \A i \in DOMAIN c.layouts : LayoutOk(c.mesh, c.data, c.layouts[i])
=============================================================================
