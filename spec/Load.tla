-------------------------------- MODULE Load --------------------------------
(***************************************************************************)
(* What Loader.load(value, type) has to do, for every value, type and      *)
(* configuration.                                                          *)
(*                                                                         *)
(* type:  k    "none", "any", "py" (a plain class), "list", "set",         *)
(*             "frozenset", "vtuple", "tuple", "dict", "union", "lit",     *)
(*             "enum", "nt", "dc", "attrs", "td", "fref", "newtype",       *)
(*             "date" (date, time, datetime), "timedelta", "pattern",      *)
(*             "bad" (nothing that typedload knows)                        *)
(*        n    name of the Python class, when it is one                    *)
(*        a    argument types        v    literal values (nodes)           *)
(*        c,e  class, enumeration    r    referred name (atom)             *)
(*        nm   __name__ (atom) or 0  lf   leaf number in the facts         *)
(*        ps   kind of text of a pattern                                   *)
(*                                                                         *)
(* class: k, n, hash, f: fields, g: guard (f: field or 0, e, cls)          *)
(* field: na   python name (atom)    mn   data names, <<mangle key, atom>> *)
(*        t,tp type, and type with pep563                                  *)
(*        req  needed for construction        init  constructor takes it   *)
(*        rep  is dumped             cmp  takes part in ==                 *)
(*        dk   default: "none", "val" (node dv), "self" (field dv)         *)
(*        cv   converter: 0 none, leaf number of a type that is called     *)
(*                                                                         *)
(* configuration o of a loader: bc basiccast, fe failonextra, de           *)
(*   dictequivalence, dbg uniondebugconflict, mk mangle_key, pep pep563,   *)
(*   rc raiseconditionerrors, fr frefs enabled, uf user supplied frefs,    *)
(*   bt basictypes, sc strconstructed, h custom handlers                   *)
(*                                                                         *)
(* context c of a load: w world, o configuration, path the named types     *)
(*   that are being loaded, roots the root types of previous loads of the  *)
(*   same loader, may the named types it can have come across              *)
(*                                                                         *)
(* outcomes: st "ok" with a pattern p                                      *)
(*           st "err" with cls (set of allowed categories: "V" ValueError, *)
(*               "T" TypeError, "A" AttributeError, "X" none of them),     *)
(*               path (steps), v (refused value, 0 unspecified), ty, subs  *)
(*           st "any" nothing is promised                                  *)
(*           st "raise" does not return                                    *)
(***************************************************************************)
EXTENDS PyData

OK(p)   == [st |-> "ok", p |-> p]
OAny    == [st |-> "any"]
ORaise  == [st |-> "raise"]
Err(cls, v, ty) == [st |-> "err", cls |-> cls, path |-> <<>>, v |-> v, ty |-> ty,
                    loose |-> FALSE, sk |-> FALSE, subs |-> <<>>]
\* an unsupported type below the root: only the category is promised
BadType == [Err({"T"}, 0, 0) EXCEPT !.loose = TRUE]

Step(k, n)      == [k |-> k, n |-> n, n2 |-> n]
Step2(k, n, n2) == [k |-> k, n |-> n, n2 |-> n2]
At(step, o) == IF o.st = "err" THEN [o EXCEPT !.path = <<step>> \o @] ELSE o

Names(s) == Range(s)

-----------------------------------------------------------------------------
(* Which handler deals with a type *)

IsBasic(w, t, o) == Ty(w, t).n # "" /\ Ty(w, t).n \in Names(o.bt)

DefaultKind(w, t, o) ==
    LET T == Ty(w, t) IN
    CASE T.k \in {"none", "union"} -> T.k
      [] IsBasic(w, t, o) -> "basic"
      [] T.k = "py" -> IF T.n \in Names(o.sc) THEN "strc" ELSE "bad"
      [] OTHER -> T.k

RECURSIVE FirstHandler(_, _, _, _)
FirstHandler(hs, pos, t, o) ==
    IF hs = 0 THEN [k |-> "no", j |-> 0]
    ELSE LET j == Len(o.h) - hs + 1  h == o.h[j] IN
         IF h.pos # pos THEN FirstHandler(hs - 1, pos, t, o)
         ELSE IF t \in Range(h.x) /\ o.rc THEN [k |-> "raise", j |-> j]
         ELSE IF t \in Range(h.x) THEN FirstHandler(hs - 1, pos, t, o)
         ELSE IF t \in Range(h.m) THEN [k |-> "custom", j |-> j]
         ELSE FirstHandler(hs - 1, pos, t, o)

Lookup(w, t, o) ==
    IF o.h = <<>> THEN [k |-> DefaultKind(w, t, o), j |-> 0]
    ELSE LET a == FirstHandler(Len(o.h), "first", t, o)  d == DefaultKind(w, t, o) IN
         IF a.k # "no" THEN a
         ELSE IF d # "bad" THEN [k |-> d, j |-> 0]
         ELSE LET z == FirstHandler(Len(o.h), "last", t, o) IN
              IF z.k # "no" THEN z ELSE [k |-> "bad", j |-> 0]

-----------------------------------------------------------------------------
IsMapping(x, o) == x.k \in {"dict", "map"} \/ (x.k = "ns" /\ o.de)
\* what iteration gives
Elems(x) == IF x.k \in {"dict", "map"} THEN MapSeq(x.d, LAMBDA kv : kv[1]) ELSE x.i

\* calling the class with leaf number lf on the value
Fact(w, v, lf, t) ==
    LET x == Nd(w, v).x IN
    IF lf = 0 \/ lf > Len(x) THEN OAny
    ELSE CASE x[lf] > 0  -> OK(PN(x[lf]))
           [] x[lf] = -1 -> Err({"V"}, v, t)
           [] x[lf] = -2 -> Err({"T"}, v, t)
           [] x[lf] = -3 -> Err({"X", "V"}, v, t)
           [] OTHER -> OAny

\* value equal to one that is vague
NodeIs(w, v, p) == PyEq(w, PN(v), p)

TypesNamed(w, name, S) == {t \in S : Ty(w, t).nm # 0 /\ Ty(w, t).nm = name}

\* [k |-> "to", t], "off", "unknown" or "any"
Resolve(name, c) ==
    LET user == {j \in 1..Len(c.o.uf) : c.o.uf[j][1] = name} IN
    IF ~c.o.fr THEN [k |-> "off", t |-> 0]
    ELSE IF user # {} THEN [k |-> "to", t |-> c.o.uf[MinOf(user)][2]]
    ELSE LET must == TypesNamed(c.w, name, c.path \cup c.roots)
             may  == TypesNamed(c.w, name, c.may) IN
         IF Cardinality(must) = 1 /\ Cardinality(must \cup may) = 1
         THEN [k |-> "to", t |-> CHOOSE t \in must : TRUE]
         ELSE IF must \cup may = {} THEN [k |-> "unknown", t |-> 0]
         ELSE [k |-> "any", t |-> 0]

FieldType(f, o) == IF o.pep THEN f.tp ELSE f.t

DataName(f, mk) ==
    LET s == {j \in 1..Len(f.mn) : f.mn[j][1] = mk} IN
    IF s = {} THEN f.na ELSE f.mn[MinOf(s)][2]
IsMangled(f, mk) == \E j \in 1..Len(f.mn) : f.mn[j][1] = mk

RECURSIVE L(_, _, _)

(* loads vs[j] into ts[j]; index of the first that is not ok, or 0 *)
LoadAll(vs, ts, c) ==
    IF Len(vs) <= 8 THEN TLCEval([j \in 1..Len(vs) |-> L(vs[j], ts[j], c)])
    ELSE LET f == TLCEval([x \in {<<vs[j], ts[j]>> : j \in 1..Len(vs)} |-> L(x[1], x[2], c)])
         IN TLCEval([j \in 1..Len(vs) |-> f[<<vs[j], ts[j]>>]])
FirstBad(rs) ==
    LET b == {j \in 1..Len(rs) : rs[j].st # "ok"} IN IF b = {} THEN 0 ELSE MinOf(b)

LoadIter(v, t, kind, c) ==
    LET w == c.w  x == Nd(w, v)  et == Ty(w, t).a[1]  h == Lookup(w, et, c.o) IN
    IF x.k = "dict" THEN Err({"T"}, v, t)
    ELSE IF h.k = "raise" THEN ORaise
    ELSE IF h.k = "bad" THEN BadType
    ELSE IF ~x.it THEN Err({"T"}, v, t)
    ELSE LET vs == Elems(x)
             rs == LoadAll(vs, [j \in 1..Len(vs) |-> et], c)
             b  == FirstBad(rs)
             isset == kind \in {"set", "frozenset"}
             u  == IF ~isset THEN 0
                   ELSE LET S == {j \in 1..Len(vs) : rs[j].st = "ok" /\ ~Hashable(w, rs[j].p)}
                        IN IF S = {} THEN 0 ELSE MinOf(S)
         IN IF u # 0 /\ (b = 0 \/ u < b)
            THEN IF Vague(rs[u].p) THEN OAny ELSE Err({"T"}, v, t)
            ELSE IF b # 0 THEN At(Step("INDEX", b - 1), rs[b])
            ELSE LET ps == [j \in 1..Len(vs) |-> rs[j].p] IN
                 OK(PSeq(kind, IF isset THEN Dedup(w, ps, <<>>) ELSE ps))

LoadTuple(v, t, c) ==
    LET w == c.w  x == Nd(w, v)  ts == Ty(w, t).a
        hs == [j \in 1..Len(ts) |-> Lookup(w, ts[j], c.o).k]
        weird == \E j \in 1..Len(ts) : hs[j] \in {"bad", "raise"}
    IN
    IF x.k = "dict" THEN Err({"T"}, v, t)
    ELSE IF ~x.ln \/ ~x.it THEN Err({"T"}, v, t)
    ELSE LET vs == Elems(x) IN
         IF (c.o.fe /\ Len(vs) > Len(ts)) \/ Len(vs) < Len(ts) THEN Err({"V"}, v, t)
         ELSE IF weird
              THEN IF \E j \in 1..Len(ts) : hs[j] = "raise" THEN OAny
                   ELSE LET n  == MinOf({j \in 1..Len(ts) : hs[j] = "bad"}) - 1
                            rs == LoadAll(SubSeq(vs, 1, n), SubSeq(ts, 1, n), c)
                            b  == FirstBad(rs)
                        IN IF b = 0 THEN BadType
                           ELSE IF rs[b].st # "err" THEN rs[b]
                           ELSE [rs[b] EXCEPT !.cls = @ \cup {"T"}, !.loose = TRUE]
         ELSE LET rs == LoadAll(SubSeq(vs, 1, Len(ts)), ts, c)
                  b  == FirstBad(rs)
              IN IF b # 0 THEN At(Step("INDEX", b - 1), rs[b])
                 ELSE OK(PSeq("tuple", [j \in 1..Len(ts) |-> rs[j].p]))

LoadDict(v, t, c) ==
    LET w == c.w  x == Nd(w, v)  kt == Ty(w, t).a[1]  vt == Ty(w, t).a[2]
        hk == Lookup(w, kt, c.o).k  hv == Lookup(w, vt, c.o).k
        ev == IF x.k = "ns" THEN 0 ELSE v
    IN
    IF hk = "raise" \/ (hv = "raise" /\ hk # "bad") THEN ORaise
    ELSE IF hk = "bad" \/ hv = "bad" THEN BadType
    ELSE IF ~IsMapping(x, c.o) THEN Err({"A"}, ev, t)
    ELSE LET n  == Len(x.d)
             ks == LoadAll([j \in 1..n |-> x.d[j][1]], [j \in 1..n |-> kt], c)
             vs == LoadAll([j \in 1..n |-> x.d[j][2]], [j \in 1..n |-> vt], c)
             bad(j) == ks[j].st # "ok" \/ vs[j].st # "ok" \/ ~Hashable(w, ks[j].p)
             S  == {j \in 1..n : bad(j)}
         IN IF S = {}
            THEN OK(PDict(DedupItems(w, [j \in 1..n |-> <<ks[j].p, vs[j].p>>], <<>>)))
            ELSE LET j == MinOf(S) IN
                 IF ks[j].st # "ok" THEN At(Step("KEY", x.d[j][1]), ks[j])
                 ELSE IF vs[j].st # "ok" THEN At(Step("VALUE", x.d[j][2]), vs[j])
                 ELSE IF Vague(ks[j].p) THEN OAny
                 ELSE Err({"T"}, ev, t)

(* the field of class C that the data entry with this key belongs to:      *)
(* 0 none, -1 the python name of a field that goes by another name         *)
FieldOf(w, C, key, mk) ==
    LET ke == Nd(w, key)
        is(a) == ke.k = "a" /\ ke.e = Nd(w, a).e
        hit == {j \in 1..Len(C.f) : C.f[j].init /\ is(DataName(C.f[j], mk))}
        py  == {j \in 1..Len(C.f) : C.f[j].init /\ is(C.f[j].na)}
    IN IF hit # {} THEN MinOf(hit)
       ELSE IF py # {} THEN -1 ELSE 0

MangleKey(C, o) == IF C.k \in {"dc", "attrs"} THEN o.mk ELSE ""

Guarded(w, C, fs) ==
    /\ C.g.f # 0
    /\ fs[C.g.f].k = "n"
    /\ Nd(w, fs[C.g.f].n).t = Nd(w, C.g.n).t
    /\ PyEq(w, fs[C.g.f], PN(C.g.n))

Convert(w, f, p) ==
    IF f.cv = 0 THEN p
    ELSE IF p.k = "n" /\ Len(Nd(w, p.n).x) >= f.cv /\ Nd(w, p.n).x[f.cv] > 0
         THEN PN(Nd(w, p.n).x[f.cv]) ELSE PAny

\* what the converter of field f makes of p when it refuses it: its category
Refusal(w, f, p) ==
    IF f.cv = 0 \/ p.k # "n" \/ Len(Nd(w, p.n).x) < f.cv THEN {}
    ELSE CASE Nd(w, p.n).x[f.cv] = -1 -> {"V"}
           [] Nd(w, p.n).x[f.cv] = -2 -> {"T"}
           [] Nd(w, p.n).x[f.cv] = -3 -> {"X"}
           [] OTHER -> {}

LoadObj(v, t, c) ==
    LET w  == c.w  x == Nd(w, v)  C == Cl(w, Ty(w, t).c)
        mk == MangleKey(C, c.o)
        ev == IF x.k = "ns" \/ \E j \in 1..Len(C.f) : mk # "" /\ IsMangled(C.f[j], mk)
              THEN 0 ELSE v
    IN
    IF ~IsMapping(x, c.o) THEN Err({"A"}, ev, t)
    ELSE LET n  == Len(x.d)
             fo == TLCEval([j \in 1..n |-> FieldOf(w, C, x.d[j][1], mk)])
             present == {fo[j] : j \in 1..n}
             use == Filter([j \in 1..n |-> j], LAMBDA j : fo[j] > 0)
         IN
         \* attrs classes leave it to the constructor to miss its parameters
         LET missing == \E j \in 1..Len(C.f) : C.f[j].req /\ j \notin present IN
         IF missing /\ C.k # "attrs" THEN Err({"V"}, ev, t)
         ELSE IF c.o.fe /\ \E j \in 1..n : fo[j] <= 0 THEN Err({"V"}, ev, t)
         ELSE LET ft(j) == FieldType(C.f[fo[use[j]]], c.o)
                  hs == TLCEval([j \in 1..Len(use) |-> Lookup(w, ft(j), c.o).k])
                  rs == TLCEval([j \in 1..Len(use) |->
                            CASE hs[j] = "bad" -> BadType
                              [] hs[j] = "raise" -> ORaise
                              [] OTHER -> At(Step2("FIELD", C.f[fo[use[j]]].na, x.d[use[j]][1]),
                                             L(x.d[use[j]][2], ft(j), c))])
                  b  == FirstBad(rs)
              IN
              IF b # 0 THEN rs[b]
              ELSE IF missing THEN Err({"T"}, 0, 0)
              ELSE IF C.k = "td"
                   THEN OK(PObj([j \in 1..Len(use) |-> <<C.f[fo[use[j]]].na, rs[j].p>>]))
              ELSE LET given(j) == {l \in 1..Len(use) : fo[use[l]] = j}
                       f0 == TLCEval([j \in 1..Len(C.f) |->
                            IF given(j) # {} THEN Convert(w, C.f[j], rs[MinOf(given(j))].p)
                            ELSE IF ~C.f[j].init THEN PAny
                            ELSE IF C.f[j].dk = "val" THEN Convert(w, C.f[j], PN(C.f[j].dv))
                            ELSE PAny])
                       fs == TLCEval([j \in 1..Len(C.f) |->
                            IF C.f[j].init /\ given(j) = {} /\ C.f[j].dk = "self"
                            THEN f0[C.f[j].dv] ELSE f0[j]])
                       no == UNION {IF given(j) # {} THEN Refusal(w, C.f[j], rs[MinOf(given(j))].p)
                                    ELSE IF C.f[j].init /\ C.f[j].dk = "val" THEN Refusal(w, C.f[j], PN(C.f[j].dv))
                                    ELSE {} : j \in 1..Len(C.f)}
                   IN IF "X" \in no THEN OAny
                      ELSE IF no # {} THEN Err(no, 0, 0)
                      ELSE IF Guarded(w, C, fs) THEN Err({C.g.cls}, 0, 0)
                      ELSE OK(PInst(Ty(w, t).c, fs))

LoadLit(v, t, c) ==
    LET vs == Ty(c.w, t).v IN
    IF \E j \in 1..Len(vs) : PyEq(c.w, PN(v), PN(vs[j])) THEN OK(PN(v))
    ELSE Err({"V"}, v, t)

(* member of enumeration E having this value, as a set of nodes *)
MemberOf(w, E, p) ==
    {E.m[j][2] : j \in {j \in 1..Len(E.m) : PyEq(w, p, PN(E.m[j][1]))}}

LoadEnum(v, t, c) ==
    LET w == c.w  E == En(w, Ty(w, t).e)
        self == {E.m[j][2] : j \in {j \in 1..Len(E.m) : E.m[j][2] = v}}
        direct == self \cup MemberOf(w, E, PN(v))
    IN IF direct # {} THEN OK(PN(CHOOSE m \in direct : (self # {} => m \in self)))
       ELSE LET rs == LoadAll([j \in 1..Len(E.h) |-> v], E.h, c)
                hit(j) == IF rs[j].st # "ok" THEN {} ELSE MemberOf(w, E, rs[j].p)
                S == {j \in 1..Len(rs) : hit(j) # {}}
                unsure == {j \in 1..Len(rs) : rs[j].st \in {"any", "raise"}
                                              \/ (rs[j].st = "ok" /\ Vague(rs[j].p))}
            IN IF unsure # {} THEN OAny
               ELSE IF S # {} THEN OK(PN(CHOOSE m \in hit(MinOf(S)) : TRUE))
               \* every type that was tried is reported, as in a union
               ELSE [Err({"V"}, v, t) EXCEPT
                        !.sk = /\ Cardinality(Range(E.h)) = Len(E.h)
                               /\ \A j \in 1..Len(E.h) : Lookup(w, E.h[j], c.o).k # "bad",
                        !.subs = [j \in 1..Len(E.h) |->
                            [ty |-> E.h[j],
                             e |-> IF rs[j].st = "err" THEN rs[j] ELSE Err({"V"}, v, E.h[j])]]]

LoadUnion(v, t, c) ==
    LET w == c.w  x == Nd(w, v)  ts == Ty(w, t).a
    IN
    IF x.t \in Names(c.o.bt) /\ \E j \in 1..Len(ts) : Ty(w, ts[j]).n = x.t
    THEN OK(PN(v))
    ELSE LET rs == TLCEval([j \in 1..Len(ts) |->
                       LET h == Lookup(w, ts[j], c.o).k IN
                       CASE h = "bad" -> [Err({"V", "T"}, 0, 0) EXCEPT !.loose = TRUE]
                         [] h = "raise" -> ORaise
                         [] OTHER -> L(v, ts[j], c)])
             ok    == {j \in 1..Len(ts) : rs[j].st = "ok"}
             okn   == {j \in ok : ~IsBasic(w, ts[j], c.o)}
             use   == IF okn # {} THEN okn ELSE ok
             pats(S) == LET s == Filter([j \in 1..Len(ts) |-> j], LAMBDA j : j \in S) IN
                        [j \in 1..Len(s) |-> rs[s[j]].p]
             fail  == Filter([j \in 1..Len(ts) |-> j], LAMBDA j : rs[j].st = "err")
             subs  == [j \in 1..Len(fail) |-> [ty |-> ts[fail[j]], e |-> rs[fail[j]]]]
         IN IF \E j \in 1..Len(ts) : rs[j].st \in {"any", "raise"} THEN OAny
            ELSE IF ok = {} THEN [Err({"V"}, v, t) EXCEPT !.sk = TRUE, !.subs = subs]
            ELSE IF c.o.dbg /\ Cardinality(ok) > 1
                 THEN [Err({"T"}, v, t) EXCEPT !.sk = TRUE, !.subs = subs]
            ELSE OK(PAlt(pats(use)))

\* a type that is not at the root
Inner(v, t, c) == IF Lookup(c.w, t, c.o).k = "bad" THEN BadType ELSE L(v, t, c)

LoadCustom(v, t, h, c) ==
    LET w == c.w  x == Nd(w, v) IN
    CASE h.act = "wrap"   -> OK(PSeq("tuple", <<PN(h.n), PN(v)>>))
      [] h.act = "const"  -> OK(PN(h.n))
      [] h.act = "reject" -> Err({"V"}, v, t)
      [] h.act = "recur"  -> Inner(v, h.n, c)
      [] h.act = "each"   ->
           IF ~x.it THEN Err({"V"}, v, t)
           ELSE LET vs == Elems(x)
                    rs == TLCEval([j \in 1..Len(vs) |-> Inner(vs[j], h.n, c)])
                    b  == FirstBad(rs)
                IN IF b # 0 THEN At(Step("INDEX", b - 1), rs[b])
                   ELSE OK(PSeq("list", [j \in 1..Len(vs) |-> rs[j].p]))
      [] OTHER -> OAny

L(v, t, c0) ==
    LET w == c0.w  T == Ty(w, t)  o == c0.o
        h == Lookup(w, t, o)
        c == IF T.nm # 0 THEN [c0 EXCEPT !.path = @ \cup {t}] ELSE c0
    IN
    CASE h.k = "raise"  -> ORaise
      [] h.k = "custom" -> LoadCustom(v, t, o.h[h.j], c)
      [] h.k = "bad"    -> Err({"T"}, v, t)
      [] h.k = "none"   -> IF Nd(w, v).t = "NoneType" THEN OK(PN(v)) ELSE Err({"V"}, v, t)
      [] h.k = "any"    -> OK(PN(v))
      [] h.k = "basic"  -> IF Nd(w, v).t = T.n THEN OK(PN(v))
                           ELSE IF o.bc THEN Fact(w, v, T.lf, t)
                           ELSE Err({"V"}, v, t)
      [] h.k \in {"strc", "date", "timedelta"} -> Fact(w, v, T.lf, t)
      [] h.k = "pattern" -> IF T.ps # "" /\ Nd(w, v).t # T.ps THEN Err({"V"}, v, t)
                            ELSE Fact(w, v, T.lf, t)
      [] h.k \in {"list", "set", "frozenset"} -> LoadIter(v, t, h.k, c)
      [] h.k = "vtuple" -> LoadIter(v, t, "tuple", c)
      [] h.k = "tuple"  -> LoadTuple(v, t, c)
      [] h.k = "dict"   -> LoadDict(v, t, c)
      [] h.k \in {"nt", "dc", "attrs", "td"} -> LoadObj(v, t, c)
      [] h.k = "lit"    -> LoadLit(v, t, c)
      [] h.k = "enum"   -> LoadEnum(v, t, c)
      [] h.k = "union"  -> LoadUnion(v, t, c)
      [] h.k = "newtype" -> Inner(v, T.a[1], c)
      [] h.k = "fref"   ->
           (LET r == Resolve(T.r, c) IN
            CASE r.k = "to" -> At(Step("FORWARDREF", T.r), Inner(v, r.t, c))
              [] r.k = "unknown" -> Err({"V"}, v, t)
              [] r.k = "off" -> Err({"X", "V", "T"}, v, t)
              [] OTHER -> OAny)
      [] OTHER -> OAny

(* A load from the outside *)
LoadRoot(w, o, v, t, roots, may) ==
    L(v, t, [w |-> w, o |-> o, path |-> {}, roots |-> roots, may |-> may])

-----------------------------------------------------------------------------
(* Does the observed value n conform to type t?  Independent of L: it only *)
(* looks at the result.  exempt: positions produced by user code.          *)
RECURSIVE Conforms(_, _, _)
Conforms(n, t, c) ==
    LET w == c.w  x == Nd(w, n)  T == Ty(w, t)  h == Lookup(w, t, c.o)
        all(s, u) == \A m \in Range(s) : Conforms(m, u, c)
    IN
    CASE h.k \in {"custom", "raise", "bad", "any"} -> TRUE
      [] h.k = "none"  -> x.t = "NoneType"
      [] h.k = "basic" -> x.t = T.n
      [] h.k = "strc"  -> TRUE
      [] h.k = "date"  -> x.t = T.n
      [] h.k = "timedelta" -> x.t = T.n
      [] h.k = "pattern" -> x.t = "re.Pattern"
      [] h.k \in {"list", "set", "frozenset"} -> x.k = h.k /\ x.t = h.k /\ all(x.i, T.a[1])
      [] h.k = "vtuple" -> x.k = "tuple" /\ x.t = "tuple" /\ all(x.i, T.a[1])
      [] h.k = "tuple"  -> x.k = "tuple" /\ x.t = "tuple" /\ Len(x.i) = Len(T.a)
                           /\ \A j \in 1..Len(T.a) : Conforms(x.i[j], T.a[j], c)
      [] h.k = "dict"   -> x.k = "dict" /\ x.t = "dict"
                           /\ \A j \in 1..Len(x.d) : Conforms(x.d[j][1], T.a[1], c)
                                                  /\ Conforms(x.d[j][2], T.a[2], c)
      [] h.k = "union"  -> \E j \in 1..Len(T.a) : Conforms(n, T.a[j], c)
      [] h.k = "lit"    -> \E j \in 1..Len(T.v) : PyEq(w, PN(n), PN(T.v[j]))
      [] h.k = "enum"   -> \E j \in 1..Len(En(w, T.e).m) : En(w, T.e).m[j][2] = n
      [] h.k = "newtype" -> Conforms(n, T.a[1], c)
      [] h.k = "fref"   ->
           (LET S == TypesNamed(w, T.r, c.path \cup c.roots \cup c.may)
                       \cup {c.o.uf[j][2] : j \in {j \in 1..Len(c.o.uf) : c.o.uf[j][1] = T.r}} IN
            S = {} \/ \E u \in S : Conforms(n, u, c))
      [] h.k = "td"     ->
           (LET f == Cl(w, T.c).f IN
            /\ x.k = "dict" /\ x.t = "dict"
            /\ \A j \in 1..Len(f) : f[j].req => \E l \in 1..Len(x.d) : Nd(w, x.d[l][1]).e = Nd(w, f[j].na).e
            /\ \A l \in 1..Len(x.d) : \E j \in 1..Len(f) :
                   Nd(w, x.d[l][1]).e = Nd(w, f[j].na).e
                   /\ Conforms(x.d[l][2], FieldType(f[j], c.o), c))
      [] h.k \in {"nt", "dc", "attrs"} ->
           (LET C == Cl(w, T.c) IN
            /\ x.k = "inst" /\ x.c = T.c
            /\ \A j \in 1..Len(C.f) :
                   (C.f[j].init /\ C.f[j].cv = 0 /\ x.i[j] # 0) =>
                       \/ Conforms(x.i[j], FieldType(C.f[j], c.o), [c EXCEPT !.may = @ \cup {t}])
                       \/ (C.f[j].dk # "none" /\ C.f[j].cv = 0
                           /\ (C.f[j].dk = "self" \/ Same(w, x.i[j], C.f[j].dv))))
      [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* The predicates of typechecks that are true for a type *)
Classify(w, t) ==
    LET T == Ty(w, t) IN
    CASE T.k = "none" -> {"nonetype"}
      [] T.k = "any" -> {"any"}
      [] T.k = "list" -> {"list"}
      [] T.k = "set" -> {"set"}
      [] T.k = "frozenset" -> {"frozenset"}
      [] T.k \in {"tuple", "vtuple"} -> {"tuple"}
      [] T.k = "dict" -> {"dict"}
      [] T.k = "union" ->
           {"union"} \cup
           (IF Len(T.a) = 2 /\ \E j \in 1..2 : Ty(w, T.a[j]).k = "none" THEN {"optional"} ELSE {})
      [] T.k = "lit" -> {"literal"}
      [] T.k = "enum" -> {"enum"}
      [] T.k = "nt" -> {"namedtuple"}
      [] T.k = "dc" -> {"dataclass"}
      [] T.k = "attrs" -> {"attrs"}
      [] T.k = "td" -> {"typeddict"}
      [] T.k = "fref" -> {"forwardref"}
      [] T.k = "newtype" -> {"newtype"}
      [] T.k = "pattern" -> {"pattern"}
      [] T.k = "notrequired" -> {"notrequired"}
      [] T.k = "bare" -> {T.ps}
      [] OTHER -> {}
=============================================================================
