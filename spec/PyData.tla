------------------------------- MODULE PyData -------------------------------
(***************************************************************************)
(* Python values, as far as typedload cares about them.                    *)
(*                                                                         *)
(* A "world" is one recorded universe: a table of values (nodes), a table  *)
(* of type annotations, a table of classes and a table of enumerations.    *)
(* Nodes, types and classes refer to each other by position in the table.  *)
(*                                                                         *)
(* node:  k   "a" (atom: a scalar, opaque here), "list", "tuple", "set",   *)
(*            "frozenset", "seq" (another sized iterable), "gen" (an       *)
(*            iterable without length), "dict", "map" (another mapping),   *)
(*            "ns" (argparse.Namespace), "inst" (object of a class of C)   *)
(*        t   name of its Python class         s   str(value)              *)
(*        e   equality class of an atom        h   hashable (atoms)        *)
(*        it  iterable                         ln  has a length            *)
(*        i   children (elements, characters, field values in order)       *)
(*        d   <<key, value>> pairs of mappings                             *)
(*        c   class of an instance                                         *)
(*        x   what constructors give for it, indexed by the leaf number of *)
(*            the type: > 0 the resulting node, -1 ValueError,             *)
(*            -2 TypeError, -3 other exception, 0 not known                *)
(*        dk, du, dl  how it dumps (scalars with a special dump)           *)
(*                                                                         *)
(* The equality classes and the results of constructors of scalars (int(), *)
(* Path(), date.fromisoformat() ...) are facts about Python itself, given  *)
(* with the world.  Everything typedload does on top of them is specified  *)
(* in Load and Dump.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Worlds

Nd(w, n) == Worlds[w].N[n]
Ty(w, t) == Worlds[w].T[t]
Cl(w, c) == Worlds[w].C[c]
En(w, e) == Worlds[w].E[e]

Range(s) == {s[j] : j \in DOMAIN s}

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

MapSeq(s, Op(_)) == TLCEval([j \in 1..Len(s) |-> Op(s[j])])

Filter(s, Test(_)) == SelectSeq(s, Test)

-----------------------------------------------------------------------------
(* Patterns: what a result has to look like.                               *)
(*   [k |-> "n", n]           exactly the value of node n                  *)
(*   [k |-> "list"|"tuple"|"set"|"frozenset", i]                           *)
(*   [k |-> "dict", d]        dictionary, in this order                    *)
(*   [k |-> "obj", d]         dictionary, in any order                     *)
(*   [k |-> "inst", c, i]     object of class c with these field values    *)
(*   [k |-> "alt", s]         any of these                                 *)
(*   [k |-> "any"]            anything                                     *)

PN(n)        == [k |-> "n", n |-> n]
PSeq(kind,s) == [k |-> kind, i |-> s]
PDict(d)     == [k |-> "dict", d |-> d]
PObj(d)      == [k |-> "obj", d |-> d]
PInst(c, f)  == [k |-> "inst", c |-> c, i |-> f]
PAlt(s)      == IF Len(s) = 1 THEN s[1] ELSE [k |-> "alt", s |-> s]
PAny         == [k |-> "any"]

(* A uniform view of patterns and nodes, to compare values like Python's   *)
(* == does.  A NamedTuple is a tuple, sets and frozensets compare by their *)
(* elements, mappings by their items.                                      *)
View(w, p) ==
    IF p.k = "n"
    THEN LET x == Nd(w, p.n) IN
         CASE x.k = "a" -> [v |-> "a", e |-> x.e, c |-> 0, i |-> <<>>, d |-> <<>>]
           [] x.k \in {"list", "tuple"} -> [v |-> x.k, e |-> 0, c |-> 0, i |-> MapSeq(x.i, PN), d |-> <<>>]
           [] x.k \in {"set", "frozenset"} -> [v |-> "set", e |-> 0, c |-> 0, i |-> MapSeq(x.i, PN), d |-> <<>>]
           [] x.k \in {"dict", "map"} ->
                [v |-> "dict", e |-> 0, c |-> 0, i |-> <<>>,
                 d |-> MapSeq(x.d, LAMBDA kv : <<PN(kv[1]), PN(kv[2])>>)]
           [] x.k = "ns" ->
                [v |-> "ns", e |-> 0, c |-> 0, i |-> <<>>,
                 d |-> MapSeq(x.d, LAMBDA kv : <<PN(kv[1]), PN(kv[2])>>)]
           [] x.k = "inst" ->
                IF Cl(w, x.c).k = "nt"
                THEN [v |-> "tuple", e |-> 0, c |-> 0, i |-> MapSeq(x.i, PN), d |-> <<>>]
                ELSE [v |-> "inst", e |-> 0, c |-> x.c, i |-> MapSeq(x.i, PN), d |-> <<>>]
           [] OTHER -> [v |-> "other", e |-> p.n, c |-> 0, i |-> <<>>, d |-> <<>>]
    ELSE CASE p.k \in {"list", "tuple"} -> [v |-> p.k, e |-> 0, c |-> 0, i |-> p.i, d |-> <<>>]
           [] p.k \in {"set", "frozenset"} -> [v |-> "set", e |-> 0, c |-> 0, i |-> p.i, d |-> <<>>]
           [] p.k = "dict" -> [v |-> "dict", e |-> 0, c |-> 0, i |-> <<>>, d |-> p.d]
           [] p.k = "obj" -> [v |-> "dict", e |-> 0, c |-> 0, i |-> <<>>,
                              d |-> MapSeq(p.d, LAMBDA kv : <<PN(kv[1]), kv[2]>>)]
           [] p.k = "inst" ->
                IF Cl(w, p.c).k = "nt"
                THEN [v |-> "tuple", e |-> 0, c |-> 0, i |-> p.i, d |-> <<>>]
                ELSE [v |-> "inst", e |-> 0, c |-> p.c, i |-> p.i, d |-> <<>>]
           [] OTHER -> [v |-> "any", e |-> 0, c |-> 0, i |-> <<>>, d |-> <<>>]

(* Python's == *)
RECURSIVE PyEq(_, _, _)
PyEq(w, p, q) ==
    IF p.k = "n" /\ q.k = "n" /\ p.n = q.n THEN TRUE ELSE
    LET a == View(w, p)  b == View(w, q) IN
    /\ a.v = b.v
    /\ CASE a.v = "a" -> a.e = b.e
         [] a.v = "other" -> a.e = b.e
         [] a.v \in {"list", "tuple"} ->
              Len(a.i) = Len(b.i) /\ \A j \in 1..Len(a.i) : PyEq(w, a.i[j], b.i[j])
         [] a.v = "set" ->
              Len(a.i) = Len(b.i) /\ \A j \in 1..Len(a.i) : \E m \in 1..Len(b.i) : PyEq(w, a.i[j], b.i[m])
         [] a.v \in {"dict", "ns"} ->
              Len(a.d) = Len(b.d) /\ \A j \in 1..Len(a.d) : \E m \in 1..Len(b.d) :
                    PyEq(w, a.d[j][1], b.d[m][1]) /\ PyEq(w, a.d[j][2], b.d[m][2])
         [] a.v = "inst" ->
              /\ a.c = b.c
              /\ LET f == Cl(w, a.c).f IN
                 \A j \in 1..Len(f) : f[j].cmp => PyEq(w, a.i[j], b.i[j])
         [] OTHER -> FALSE

(* Whether hash() works *)
RECURSIVE Hashable(_, _)
Hashable(w, p) ==
    LET kids(s) == \A j \in 1..Len(s) : Hashable(w, s[j]) IN
    CASE p.k = "n" ->
           (LET x == Nd(w, p.n) IN
            CASE x.k = "a" -> x.h
              [] x.k = "tuple" -> kids(MapSeq(x.i, PN))
              [] x.k = "frozenset" -> TRUE
              [] x.k = "inst" -> Cl(w, x.c).hash /\ kids(MapSeq(x.i, PN))
              [] OTHER -> x.h)
      [] p.k = "tuple" -> kids(p.i)
      [] p.k = "frozenset" -> TRUE
      [] p.k = "inst" -> Cl(w, p.c).hash /\ kids(p.i)
      [] p.k = "alt" -> kids(p.s)
      [] p.k = "any" -> TRUE
      [] OTHER -> FALSE

(* Something whose value is not pinned down *)
RECURSIVE Vague(_)
Vague(p) ==
    CASE p.k \in {"alt", "any"} -> TRUE
      [] p.k \in {"list", "tuple", "set", "frozenset", "inst"} -> \E j \in 1..Len(p.i) : Vague(p.i[j])
      [] p.k = "dict" -> \E j \in 1..Len(p.d) : Vague(p.d[j][1]) \/ Vague(p.d[j][2])
      [] p.k = "obj" -> \E j \in 1..Len(p.d) : Vague(p.d[j][2])
      [] OTHER -> FALSE

(* Elements of a set: the first of those that are equal stays *)
RECURSIVE Dedup(_, _, _)
Dedup(w, s, acc) ==
    IF s = <<>> THEN acc
    ELSE IF \E j \in 1..Len(acc) : PyEq(w, acc[j], Head(s))
         THEN Dedup(w, Tail(s), acc)
         ELSE Dedup(w, Tail(s), Append(acc, Head(s)))

(* Entries of a dictionary: first key, last value of those that are equal *)
RECURSIVE DedupItems(_, _, _)
DedupItems(w, s, acc) ==
    IF s = <<>> THEN acc
    ELSE LET same == {j \in 1..Len(acc) : PyEq(w, acc[j][1], Head(s)[1])} IN
         IF same = {} THEN DedupItems(w, Tail(s), Append(acc, Head(s)))
         ELSE LET j == MinOf(same) IN
              DedupItems(w, Tail(s), [acc EXCEPT ![j] = <<acc[j][1], Head(s)[2]>>])

-----------------------------------------------------------------------------
(* The very same value: same types all the way down *)
RECURSIVE Same(_, _, _)
Same(w, m, n) ==
    IF m = n THEN TRUE ELSE
    LET a == Nd(w, m)  b == Nd(w, n) IN
    /\ a.k = b.k /\ a.t = b.t
    /\ CASE a.k = "a" -> FALSE            \* atoms are unique in the table
         [] a.k \in {"list", "tuple", "seq"} ->
              Len(a.i) = Len(b.i) /\ \A j \in 1..Len(a.i) : Same(w, a.i[j], b.i[j])
         [] a.k \in {"set", "frozenset"} ->
              Len(a.i) = Len(b.i) /\ \A j \in 1..Len(a.i) : \E l \in 1..Len(b.i) : Same(w, a.i[j], b.i[l])
         [] a.k \in {"dict", "map", "ns"} ->
              Len(a.d) = Len(b.d) /\ \A j \in 1..Len(a.d) : \E l \in 1..Len(b.d) :
                   Same(w, a.d[j][1], b.d[l][1]) /\ Same(w, a.d[j][2], b.d[l][2])
         [] a.k = "inst" ->
              a.c = b.c /\ \A j \in 1..Len(a.i) :
                   (a.i[j] = 0 /\ b.i[j] = 0) \/ (a.i[j] # 0 /\ b.i[j] # 0 /\ Same(w, a.i[j], b.i[j]))
         [] OTHER -> FALSE

(* Does the observed node o look like pattern p? *)
RECURSIVE Match(_, _, _)
Match(w, o, p) ==
    LET x == Nd(w, o) IN
    CASE p.k = "any" -> TRUE
      [] p.k = "n" -> Same(w, o, p.n)
      [] p.k = "alt" -> \E j \in 1..Len(p.s) : Match(w, o, p.s[j])
      [] p.k \in {"list", "tuple"} ->
           /\ x.k = p.k /\ x.t = p.k
           /\ Len(x.i) = Len(p.i)
           /\ \A j \in 1..Len(p.i) : Match(w, x.i[j], p.i[j])
      [] p.k \in {"set", "frozenset"} ->
           /\ x.k = p.k /\ x.t = p.k
           /\ \A j \in 1..Len(x.i) : \E l \in 1..Len(p.i) : Match(w, x.i[j], p.i[l])
           /\ \A l \in 1..Len(p.i) : \/ Vague(p.i[l])
                                    \/ \E j \in 1..Len(x.i) :
                                          \/ Match(w, x.i[j], p.i[l])
                                          \/ PyEq(w, PN(x.i[j]), p.i[l]) /\ \E m \in 1..Len(p.i) : Vague(p.i[m])
           /\ (\A l \in 1..Len(p.i) : ~Vague(p.i[l])) => Len(x.i) = Len(p.i)
      [] p.k = "dict" ->
           /\ x.k = "dict" /\ x.t = "dict"
           /\ IF \E l \in 1..Len(p.d) : Vague(p.d[l][1])
              THEN \A j \in 1..Len(x.d) : \E l \in 1..Len(p.d) :
                        Match(w, x.d[j][1], p.d[l][1])
              ELSE /\ Len(x.d) = Len(p.d)
                   /\ \A j \in 1..Len(p.d) : Match(w, x.d[j][1], p.d[j][1])
                                          /\ Match(w, x.d[j][2], p.d[j][2])
      [] p.k = "obj" ->
           /\ x.k = "dict" /\ x.t = "dict"
           /\ Len(x.d) = Len(p.d)
           /\ \A l \in 1..Len(p.d) : \E j \in 1..Len(x.d) :
                  /\ Nd(w, x.d[j][1]).e = Nd(w, p.d[l][1]).e
                  /\ Match(w, x.d[j][2], p.d[l][2])
      [] p.k = "inst" ->
           /\ x.k = "inst" /\ x.c = p.c
           /\ \A j \in 1..Len(p.i) : p.i[j].k = "any" \/ (x.i[j] # 0 /\ Match(w, x.i[j], p.i[j]))
      [] OTHER -> FALSE
=============================================================================
