--------------------------- MODULE AttentionMaskMC ---------------------------
(* Layer by layer, what reaches a place, for all packings and prefixes: never   *)
(* another example, never padding, never what comes later except within a      *)
(* bidirectional prefix; and everything else within the example does.           *)
EXTENDS Attention
CONSTANTS MaxDec, MaxEnc, Layers
VARIABLES c, l, dinfo, cinfo
vars == <<c, l, dinfo, cinfo>>
Ordered(s) == \A j \in 1..(Len(s) - 1) : s[j].seg = 0 \/ s[j + 1].seg \in {0, s[j].seg, s[j].seg + 1}
PadLast(s) == \A j \in 1..(Len(s) - 1) : s[j].seg = 0 => s[j + 1].seg = 0
Prefixed(s) == \A j \in 2..Len(s) : s[j].bi /\ s[j].seg = s[j - 1].seg => s[j - 1].bi
Layouts(n) == {s \in [1..n -> [seg : 0..n, bi : BOOLEAN]] :
                 s[1].seg = 1 /\ Ordered(s) /\ PadLast(s) /\ Prefixed(s) /\ \A j \in 1..n : s[j].seg = 0 => ~s[j].bi}
Place(x) == [real |-> x.seg # 0, seg |-> x.seg, bi |-> x.bi]
Init == /\ \E n \in 1..MaxDec, m \in 1..MaxEnc : \E d \in Layouts(n), e \in Layouts(m), b, p \in BOOLEAN :
             /\ \A j \in 1..m : ~e[j].bi
             /\ ~p => \A j \in 1..n : d[j].seg \in {0, 1}
             /\ ~p => \A j \in 1..m : e[j].seg \in {0, 1}
             /\ c = [dec |-> [j \in 1..n |-> Place(d[j])], enc |-> [j \in 1..m |-> Place(e[j])],
                     bidir |-> b, packed |-> p, layers |-> Layers]
        /\ l = 0 /\ dinfo = [i \in DOMAIN c.dec |-> {i}] /\ cinfo = [i \in DOMAIN c.dec |-> {}]
Layer == /\ l < Layers /\ l' = l + 1 /\ c' = c
         /\ dinfo' = [i \in DOMAIN c.dec |-> dinfo[i] \cup UNION {dinfo[j] : j \in {j \in DOMAIN c.dec : SeesDec(c, i, j)}}]
         /\ cinfo' = [i \in DOMAIN c.dec |-> cinfo[i] \cup UNION {cinfo[j] : j \in {j \in DOMAIN c.dec : SeesDec(c, i, j)}}
                        \cup UNION {EncInfo(c, Layers, k) : k \in {k \in DOMAIN c.enc : SeesCross(c, i, k)}}]
Next == Layer
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Real == {i \in DOMAIN c.dec : c.dec[i].real}
Inside == \A i \in Real : /\ \A j \in dinfo[i] : c.dec[j].real /\ c.dec[j].seg = c.dec[i].seg
                          /\ \A k \in cinfo[i] : c.enc[k].real /\ c.enc[k].seg = c.dec[i].seg
Causal == \A i \in Real : \A j \in dinfo[i] : j <= i \/ (c.bidir /\ c.dec[i].bi /\ c.dec[j].bi)
Full == l > 0 => \A i \in Real :
          /\ \A j \in Real : c.dec[j].seg = c.dec[i].seg /\ (j <= i \/ (c.bidir /\ c.dec[i].bi /\ c.dec[j].bi)) => j \in dinfo[i]
          /\ \A k \in DOMAIN c.enc : c.enc[k].seg = c.dec[i].seg => k \in cinfo[i]
Same == l = Layers => \A i \in DOMAIN c.dec : dinfo[i] = DecInfo(c, Layers, i) /\ cinfo[i] = CrossInfo(c, Layers, i)
Done == <>(l = Layers)
=============================================================================
