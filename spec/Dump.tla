-------------------------------- MODULE Dump --------------------------------
(***************************************************************************)
(* What Dumper.dump(value) has to give.                                    *)
(*                                                                         *)
(* configuration o of a dumper: hd hidedefault, iso isodates, mk           *)
(*   mangle_key, bt basictypes, sc strconstructed, rc                      *)
(*   raiseconditionerrors, h custom handlers (pos, m: class names,         *)
(*   x: class names on which the condition fails, act, n)                  *)
(***************************************************************************)
EXTENDS Load

DOK(p)  == [st |-> "ok", p |-> p]
DErr    == [st |-> "err"]       \* a ValueError
DKeyErr == [st |-> "any"]

RECURSIVE DHandler(_, _, _, _)
DHandler(hs, pos, cn, o) ==
    IF hs = 0 THEN [k |-> "no", j |-> 0]
    ELSE LET j == Len(o.h) - hs + 1  h == o.h[j] IN
         IF h.pos # pos THEN DHandler(hs - 1, pos, cn, o)
         ELSE IF cn \in Range(h.x) /\ o.rc THEN [k |-> "raise", j |-> j]
         ELSE IF cn \in Range(h.x) THEN DHandler(hs - 1, pos, cn, o)
         ELSE IF cn \in Range(h.m) THEN [k |-> "custom", j |-> j]
         ELSE DHandler(hs - 1, pos, cn, o)

DKind(w, n, o) ==
    LET x == Nd(w, n) IN
    CASE x.t \in Names(o.bt) -> "basic"
      [] x.k = "inst" -> "obj"
      [] x.k \in {"list", "tuple", "set", "frozenset"} -> "iter"
      [] x.k = "dict" -> "dict"
      [] x.k = "a" /\ x.dk # "" -> x.dk          \* enum, date, delta, pat
      [] x.t \in Names(o.sc) -> "str"
      [] OTHER -> "bad"

DLookup(w, n, o) ==
    LET d == DKind(w, n, o)  cn == Nd(w, n).t IN
    IF o.h = <<>> THEN [k |-> d, j |-> 0]
    ELSE LET a == DHandler(Len(o.h), "first", cn, o) IN
         IF a.k # "no" THEN a
         ELSE IF d # "bad" THEN [k |-> d, j |-> 0]
         ELSE LET z == DHandler(Len(o.h), "last", cn, o) IN
              IF z.k # "no" THEN z ELSE [k |-> "bad", j |-> 0]

(* Is field j of instance x at its default? *)
AtDefault(w, C, x, j) ==
    LET f == C.f[j] IN
    CASE f.dk = "val"  -> PyEq(w, PN(x.i[j]), PN(f.dv))
      [] f.dk = "self" -> x.i[f.dv] # 0 /\ PyEq(w, PN(x.i[j]), PN(x.i[f.dv]))
      [] OTHER -> FALSE

\* the fields of an instance that are dumped, in order
Shown(w, C, x, o) ==
    Filter([j \in 1..Len(C.f) |-> j],
           LAMBDA j : C.f[j].rep /\ x.i[j] # 0 /\ ~(o.hd /\ AtDefault(w, C, x, j)))

RECURSIVE D(_, _, _)

\* the first outcome that is not ok decides, otherwise build
Collect(rs, built) ==
    LET b == {j \in 1..Len(rs) : rs[j].st # "ok"} IN
    IF b = {} THEN DOK(built)
    ELSE IF \E j \in b : rs[j].st = "raise" THEN ORaise
    ELSE IF \E j \in b : rs[j].st = "any" THEN OAny
    ELSE rs[MinOf(b)]

DumpAll(w, ns, o) == TLCEval([j \in 1..Len(ns) |-> D(w, ns[j], o)])

DOf(r) == IF r.st = "ok" THEN r.p ELSE PAny

D(w, n, o) ==
    LET x == Nd(w, n)  h == DLookup(w, n, o) IN
    CASE h.k = "raise" -> ORaise
      [] h.k = "custom" ->
           (LET H == o.h[h.j] IN
            CASE H.act = "wrap"   -> DOK(PSeq("list", <<PN(H.n), PN(n)>>))
              [] H.act = "const"  -> DOK(PN(H.n))
              [] H.act = "reject" -> DErr
              [] H.act = "recur"  -> D(w, H.n, o)
              [] H.act = "each"   -> (LET rs == DumpAll(w, x.i, o) IN
                                      Collect(rs, PSeq("list", [j \in 1..Len(rs) |-> DOf(rs[j])])))
              [] OTHER -> OAny)
      [] h.k = "basic" -> DOK(PN(n))
      [] h.k = "bad"   -> DErr
      [] h.k = "iter"  ->
           (LET rs == DumpAll(w, x.i, o) IN
            Collect(rs, PSeq("list", [j \in 1..Len(rs) |-> DOf(rs[j])])))
      [] h.k = "dict"  ->
           (LET m  == Len(x.d)
                ks == DumpAll(w, [j \in 1..m |-> x.d[j][1]], o)
                vs == DumpAll(w, [j \in 1..m |-> x.d[j][2]], o)
                un == \E j \in 1..m : ks[j].st = "ok" /\ ~Hashable(w, ks[j].p)
            IN IF un THEN DKeyErr
               ELSE Collect(ks \o vs, PDict(DedupItems(w, [j \in 1..m |-> <<DOf(ks[j]), DOf(vs[j])>>], <<>>))))
      [] h.k = "obj"   ->
           (LET C  == Cl(w, x.c)
                mk == MangleKey(C, o)
                fs == Shown(w, C, x, o)
                rs == DumpAll(w, [j \in 1..Len(fs) |-> x.i[fs[j]]], o)
            IN Collect(rs, PObj([j \in 1..Len(fs) |->
                                    <<IF mk = "" THEN C.f[fs[j]].na ELSE DataName(C.f[fs[j]], mk), DOf(rs[j])>>])))
      [] h.k = "enum"  -> D(w, x.du, o)
      [] h.k = "date"  -> IF o.iso THEN DOK(PN(x.du))
                          ELSE IF x.dl > 0 THEN DOK(PN(x.dl)) ELSE OAny
      [] h.k = "delta" -> DOK(PN(x.du))
      [] h.k = "pat"   -> DOK(PN(x.du))
      [] h.k = "str"   -> DOK(PN(x.ds))
      [] OTHER -> OAny

(* Only plain data: what a dump may consist of.  exempt: class names that  *)
(* custom handlers or basictypes let through.                              *)
RECURSIVE Plain(_, _, _)
Plain(w, n, exempt) ==
    LET x == Nd(w, n) IN
    CASE x.t \in exempt -> TRUE
      [] x.k = "a" -> x.t \in {"NoneType", "bool", "int", "float", "str"}
      [] x.k = "list" -> x.t = "list" /\ \A j \in 1..Len(x.i) : Plain(w, x.i[j], exempt)
      [] x.k = "dict" -> x.t = "dict" /\ \A j \in 1..Len(x.d) :
                            Plain(w, x.d[j][1], exempt) /\ Plain(w, x.d[j][2], exempt)
      [] OTHER -> FALSE
=============================================================================
