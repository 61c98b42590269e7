------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Events as annotations.  A type is [k, e, f, n]: its kind, the type of   *)
(* its elements (a sequence of one, for pointers, slices, arrays and maps),*)
(* its fields [n, t] and its length (arrays).  A value is [x, c, nil]: the *)
(* canonical text of a scalar, the parts [n, v] of anything else.  An      *)
(* annotation gives for its text the canonical value it has as a number,   *)
(* time or duration.                                                       *)
(*                                                                         *)
(* Flatten gives the leaves that an event is recorded as.  A nil and an    *)
(* empty slice or map have none either way, and nor have a nil pointer and *)
(* a pointer to a struct with nothing in it: two values are the same when  *)
(* their leaves are.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Composite == {"ptr", "struct", "slice", "array", "map"}
Nest(p, n) == IF p = "" THEN n ELSE p \o "." \o n
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Under(s, p) == StartsWith(s, Nest(p, ""))
Rest(s, p) == SubSeq(s, Len(Nest(p, "")) + 1, Len(s))

Leaf(x) == [x |-> x, c |-> <<>>, nil |-> FALSE]
Node(c) == [x |-> "", c |-> c, nil |-> FALSE]
Nil == [x |-> "", c |-> <<>>, nil |-> TRUE]

RECURSIVE Flatten(_, _, _)
Flatten(t, v, p) ==
    CASE t.k \notin Composite -> {[k |-> p, kind |-> t.k, x |-> v.x]}
      [] t.k = "ptr" -> IF v.nil THEN {} ELSE Flatten(t.e[1], v.c[1].v, p)
      [] t.k = "struct" -> UNION {Flatten(t.f[i].t, v.c[i].v, Nest(p, t.f[i].n)) : i \in DOMAIN t.f}
      [] OTHER -> UNION {Flatten(t.e[1], v.c[i].v, Nest(p, v.c[i].n)) : i \in DOMAIN v.c}

\* the value that the text of an annotation has for a kind
Canon(kind, a) == CASE kind = "f32" -> a.f32 [] kind = "f64" -> a.f64 [] kind = "time" -> a.t [] kind = "dur" -> a.d [] OTHER -> a.v

Zero(kind) == CASE kind = "string" -> "" [] kind = "bool" -> "false" [] kind = "f32" -> "0" [] kind = "f64" -> "0" [] kind = "time" -> "-62135596800.0 0"
                [] OTHER -> "0"

\* the value read from annotations, kv: key -> annotation
RECURSIVE Unflatten(_, _, _)
Unflatten(t, p, kv) ==
    LET has(q) == q \in DOMAIN kv
        under == {q \in DOMAIN kv : Under(q, p)}
    IN CASE t.k \notin Composite -> Leaf(IF has(p) THEN Canon(t.k, kv[p]) ELSE Zero(t.k))
         [] t.k = "ptr" -> IF ~has(p) /\ under = {} THEN Nil ELSE Node(<<[n |-> "*", v |-> Unflatten(t.e[1], p, kv)]>>)
         [] t.k = "struct" -> Node([i \in DOMAIN t.f |-> [n |-> t.f[i].n, v |-> Unflatten(t.f[i].t, Nest(p, t.f[i].n), kv)]])
         [] t.k = "array" -> Node([i \in 1..t.n |-> [n |-> ToString(i - 1), v |-> Unflatten(t.e[1], Nest(p, ToString(i - 1)), kv)]])
         [] t.k = "slice" -> LET in == {i \in 0..Cardinality(under) : \A j \in 0..i : has(Nest(p, ToString(j)))}
                             IN Node([i \in 1..Cardinality(in) |-> [n |-> ToString(i - 1), v |-> Unflatten(t.e[1], Nest(p, ToString(i - 1)), kv)]])
         [] t.k = "map" -> LET ks == SetToSeq(under) IN Node([i \in DOMAIN ks |-> [n |-> Rest(ks[i], p), v |-> Unflatten(t.e[1], ks[i], kv)]])

\* the keys that belong to a part
Index(s) == \E i \in 0..30 : s = ToString(i)
RECURSIVE Owns(_, _, _)
Owns(t, p, key) ==
    CASE t.k \notin Composite -> key = p
      [] t.k = "ptr" -> key = p \/ Under(key, p)
      [] t.k = "struct" -> \E i \in DOMAIN t.f : Owns(t.f[i].t, Nest(p, t.f[i].n), key)
      [] t.k = "map" -> Under(key, p)
      [] OTHER -> Under(key, p) /\ Index(Rest(key, p))

Same(t, v, w) == Flatten(t, v, "") = Flatten(t, w, "")
=============================================================================
