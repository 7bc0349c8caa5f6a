------------------------------- MODULE T5Import -------------------------------
(* Where the tensors of a Mesh TensorFlow T5 checkpoint belong (C29).            *)
(* a: an architecture: kind "encdec" or "lm", enc, dec (layers), shared (one     *)
(* table of embeddings), own (relative biases of each layer), gated, logits,     *)
(* norm and final: the names of the scales of norms.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Pad(n) == (IF n < 10 THEN "00" ELSE IF n < 100 THEN "0" ELSE "") \o ToString(n)
Towers(a) == IF a.kind = "lm" THEN {"decoder"} ELSE {"encoder", "decoder"}
Tf(a, t) == IF a.kind = "lm" THEN "transformer" ELSE t
Depth(a, t) == IF t = "encoder" THEN a.enc ELSE a.dec
(* the sublayers of a layer, in order: their kind there, the module and its norm here *)
Subs(a, t) == IF t = "encoder" THEN <<<<"SelfAttention", "attention", "pre_attention">>, <<"mlp", "mlp", "pre_mlp">>>>
              ELSE IF a.kind = "lm" THEN <<<<"SelfAttention", "self_attention", "pre_self_attention">>, <<"mlp", "mlp", "pre_mlp">>>>
              ELSE <<<<"SelfAttention", "self_attention", "pre_self_attention">>,
                     <<"EncDecAttention", "encoder_decoder_attention", "pre_cross_attention">>, <<"mlp", "mlp", "pre_mlp">>>>
Matrices == {<<"q", "query">>, <<"k", "key">>, <<"v", "value">>, <<"o", "out">>}
Dense(a) == (IF a.gated THEN {"wi_0", "wi_1"} ELSE {"wi"}) \cup {"wo"}
Layer(a, t, i) ==
  LET here == t \o "/layers_" \o ToString(i) \o "/" block == Tf(a, t) \o "/block_" \o Pad(i) \o "/"
  IN UNION {LET s == Subs(a, t)[j] base == block \o "layer_" \o Pad(j - 1) \o "/" IN
              {[tf |-> base \o a.norm \o "/scale", to |-> here \o s[3] \o "_layer_norm/scale"]} \cup
              (IF s[1] = "mlp" THEN {[tf |-> base \o "DenseReluDense/" \o w \o "/kernel", to |-> here \o "mlp/" \o w \o "/kernel"] : w \in Dense(a)}
               ELSE {[tf |-> base \o s[1] \o "/" \o m[1], to |-> here \o s[2] \o "/" \o m[2] \o "/kernel"] : m \in Matrices})
            : j \in DOMAIN Subs(a, t)}
Bias(a, t, i) == [tf |-> Tf(a, t) \o "/block_" \o Pad(i) \o "/layer_000/SelfAttention/relative_attention_bias",
                  to |-> t \o (IF a.own THEN "/layers_" \o ToString(i) ELSE "") \o "/relpos_bias/rel_embedding"]
Params(a) ==
  (IF a.shared THEN {[tf |-> "shared/embedding", to |-> "token_embedder/embedding"]}
   ELSE {[tf |-> Tf(a, t) \o "/embedding", to |-> t \o "/token_embedder/embedding"] : t \in Towers(a)})
  \cup UNION {UNION {Layer(a, t, i) : i \in 0..(Depth(a, t) - 1)} : t \in Towers(a)}
  \cup UNION {{Bias(a, t, i) : i \in 0..(IF a.own THEN Depth(a, t) - 1 ELSE 0)} : t \in Towers(a)}
  \cup {[tf |-> Tf(a, t) \o "/" \o a.final \o "/scale", to |-> t \o "/" \o t \o "_norm/scale"] : t \in Towers(a)}
  \cup (IF a.logits THEN {[tf |-> Tf(a, "decoder") \o "/logits/kernel", to |-> "decoder/logits_dense/kernel"]} ELSE {})
(* ---- everything a checkpoint leaves behind: pairs of a place and the tensor it *)
(* comes from ("": zero); factored: places whose second moments are factored     *)
Slots == {<<"_slot_vr", "v_row">>, <<"_slot_vc", "v_col">>}
Expected(a, slots, factored) ==
  UNION {LET s == "state/param_states/" \o p.to \o "/" IN
           {<<"target/" \o p.to, p.tf>>, <<s \o "m", "">>} \cup
           (IF ~slots THEN {}
            ELSE IF p.to \in factored THEN {<<s \o k[2], p.tf \o k[1]>> : k \in Slots} \cup {<<s \o "v", "">>}
            ELSE {<<s \o "v", p.tf \o "_slot_v">>, <<s \o "v_row", "">>, <<s \o "v_col", "">>})
         : p \in Params(a)} \cup {<<"state/step", "global_step">>}
=============================================================================
