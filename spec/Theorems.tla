------------------------------- MODULE Theorems -------------------------------
(***************************************************************************)
(* The listed properties, as statements about the specification itself.    *)
(*                                                                         *)
(* Load and Dump say what every call has to do, case by case, the way the  *)
(* documentation does.  Here TLC checks, for every type, every value and   *)
(* every combination of options of the given worlds, that this adds up to  *)
(* the properties of properties.jsonl.  A state is one choice of all of    *)
(* them; invariant Cnn is the property of that name.                       *)
(*                                                                         *)
(* Data of the worlds, besides their tables:                               *)
(*   types  the types that are loaded     vals  the values that are given  *)
(*   objs   <<node, type>>: typed values that are dumped                   *)
(*   twins  sequences of types that are the same but for their kind        *)
(***************************************************************************)
EXTENDS Dump, Json, IOUtils

Data == JsonDeserialize(IOEnv.MODEL_FILE)
MWorlds == Data.worlds
Prop == IOEnv.MODEL_PROP

VARIABLES w, t, v, o
vars == <<w, t, v, o>>

W == Worlds[w]

Base == [bc |-> TRUE, fe |-> FALSE, de |-> TRUE, dbg |-> FALSE, mk |-> "name", pep |-> FALSE,
         rc |-> TRUE, fr |-> TRUE, uf |-> <<>>, bt |-> Data.bt, sc |-> Data.sc, h |-> <<>>,
         hd |-> TRUE, iso |-> FALSE]

\* which options vary, for a property; the theorems vary others themselves
Both(P) == IF Prop \in P THEN BOOLEAN ELSE {FALSE}
Options ==
    {[Base EXCEPT !.bc = a, !.fe = b, !.de = d, !.dbg = g, !.mk = m, !.pep = q] :
        a \in IF Prop \in {"C10", "C16", "C26"} THEN {TRUE} ELSE BOOLEAN,
        b \in IF Prop \in {"C09", "C13", "C16", "C18", "C19", "C26"} THEN {FALSE} ELSE BOOLEAN,
        d \in IF Prop = "C24" THEN BOOLEAN ELSE {TRUE},
        g \in Both({"C11", "C25"}),
        m \in IF Prop \in {"C01", "C04", "C08", "C17"} THEN {"name", "alt"} ELSE {"name"},
        q \in Both({"C01", "C21"})}

DOptions ==
    {[Base EXCEPT !.hd = a, !.iso = b, !.mk = m, !.bc = c, !.fe = f] :
        a \in BOOLEAN, b \in BOOLEAN, m \in {"name", "alt"},
        c \in IF Prop = "C05" THEN BOOLEAN ELSE {TRUE}, f \in IF Prop = "C05" THEN BOOLEAN ELSE {FALSE}}

Dumping == Prop \in {"C05", "C06", "C07", "C22"}

Init ==
    /\ w \in 1..Len(Worlds)
    /\ IF Dumping THEN t \in 1..Len(W.objs) ELSE t \in Range(W.types)
    /\ v = 0
    /\ o = Base

Next ==
    /\ v = 0
    /\ UNCHANGED <<w, t>>
    /\ IF Dumping THEN v' = W.objs[t][1] /\ o' \in DOptions
       ELSE v' \in Range(W.vals) /\ o' \in Options

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
May(u)      == Range(Ty(w, u).cl)
R(x, u, op) == LoadRoot(w, op, x, u, {}, May(u))
Rr(x, u, op, roots) == LoadRoot(w, op, x, u, roots, UNION {May(y) : y \in roots \cup {u}})

\* the types inside the types S
RECURSIVE TypesIn(_)
TypesIn(S) ==
    LET S2 == S \cup UNION {
            Range(Ty(w, y).a)
            \cup (IF Ty(w, y).c = 0 THEN {}
                  ELSE UNION {{Cl(w, Ty(w, y).c).f[j].t, Cl(w, Ty(w, y).c).f[j].tp} : j \in 1..Len(Cl(w, Ty(w, y).c).f)})
            \cup (IF Ty(w, y).e = 0 THEN {} ELSE Range(En(w, Ty(w, y).e).h))
            : y \in S}
    IN IF S2 = S THEN S ELSE TypesIn(S2)
KindsIn(u) == {Ty(w, y).k : y \in TypesIn({u})}
Has(u, ks) == KindsIn(u) \cap ks # {}

RECURSIVE NodesIn(_)
NodesIn(S) ==
    LET S2 == S \cup UNION {Range(Nd(w, n).i) \cup {kv[1] : kv \in Range(Nd(w, n).d)} \cup {kv[2] : kv \in Range(Nd(w, n).d)}
                            : n \in S \ {0}}
    IN IF S2 = S THEN S ELSE NodesIn(S2)

RECURSIVE Leaves(_)
Leaves(q) ==
    CASE q.k = "n" -> {q.n}
      [] q.k = "alt" -> UNION {Leaves(q.s[j]) : j \in 1..Len(q.s)}
      [] q.k \in {"list", "tuple", "set", "frozenset", "inst"} -> UNION {Leaves(q.i[j]) : j \in 1..Len(q.i)}
      [] q.k = "dict" -> UNION {Leaves(q.d[j][1]) \cup Leaves(q.d[j][2]) : j \in 1..Len(q.d)}
      [] q.k = "obj" -> UNION {Leaves(q.d[j][2]) : j \in 1..Len(q.d)}
      [] OTHER -> {}

IsObj(u) == Ty(w, u).k \in {"nt", "dc", "attrs", "td"}
FieldsOf(u) == Cl(w, Ty(w, u).c).f
IsDict(x) == Nd(w, x).k = "dict"
Sure(r) == r.st \in {"ok", "err"}
\* nothing in the type lets one and the same value be read in two ways
Plainly(u) == ~Has(u, {"union", "enum", "fref", "any"})
            /\ \A y \in TypesIn({u}) : IsObj(y) => \A j \in 1..Len(FieldsOf(y)) : FieldsOf(y)[j].cv = 0

-----------------------------------------------------------------------------
(* C01: does everything that looks like p conform to u? *)
RECURSIVE PConf(_, _, _)
PConf(p, u, op) ==
    LET T == Ty(w, u)  h == Lookup(w, u, op).k
        all(s, y) == \A j \in 1..Len(s) : PConf(s[j], y, op)
        c == [w |-> w, o |-> op, path |-> {}, roots |-> {}, may |-> May(t)]
    IN
    CASE p.k = "alt" -> \A j \in 1..Len(p.s) : PConf(p.s[j], u, op)
      [] p.k = "any" -> FALSE
      [] h = "any" -> TRUE
      [] h = "union" -> \E j \in 1..Len(T.a) : PConf(p, T.a[j], op)
      [] h = "newtype" -> PConf(p, T.a[1], op)
      [] h = "fref" -> \E y \in May(t) : Ty(w, y).nm = T.r /\ PConf(p, y, op)
      [] p.k = "n" -> Conforms(p.n, u, c)
      [] h \in {"list", "set", "frozenset"} -> p.k = h /\ all(p.i, T.a[1])
      [] h = "vtuple" -> p.k = "tuple" /\ all(p.i, T.a[1])
      [] h = "tuple" -> p.k = "tuple" /\ Len(p.i) = Len(T.a) /\ \A j \in 1..Len(T.a) : PConf(p.i[j], T.a[j], op)
      [] h = "dict" -> p.k = "dict" /\ \A j \in 1..Len(p.d) : PConf(p.d[j][1], T.a[1], op) /\ PConf(p.d[j][2], T.a[2], op)
      [] h = "td" -> /\ p.k = "obj"
                     /\ \A j \in 1..Len(FieldsOf(u)) :
                            FieldsOf(u)[j].req => \E l \in 1..Len(p.d) : p.d[l][1] = FieldsOf(u)[j].na
                     /\ \A l \in 1..Len(p.d) : \E j \in 1..Len(FieldsOf(u)) :
                            p.d[l][1] = FieldsOf(u)[j].na /\ PConf(p.d[l][2], FieldType(FieldsOf(u)[j], op), op)
      [] h \in {"nt", "dc", "attrs"} ->
            /\ p.k = "inst" /\ p.c = T.c
            /\ \A j \in 1..Len(FieldsOf(u)) : LET f == FieldsOf(u)[j] IN
                  \/ ~f.init \/ f.cv # 0
                  \/ PConf(p.i[j], FieldType(f, op), op)
                  \/ f.dk = "val" /\ p.i[j] = PN(f.dv)
                  \/ f.dk = "self"
      [] OTHER -> FALSE

C01 == v # 0 => LET r == R(v, t, o) IN r.st = "ok" => PConf(r.p, t, o)

(* C02: the parts of the result are the loads of the parts of the input *)
C02 == v # 0 =>
    LET r == R(v, t, o)  x == Nd(w, v)  T == Ty(w, t)
        c == [w |-> w, o |-> o, path |-> IF T.nm = 0 THEN {} ELSE {t}, roots |-> {}, may |-> May(t)]
        of(n, u) == L(n, u, c)
    IN
    /\ (r.st = "ok" /\ T.k \in {"list", "vtuple"}) =>
          /\ Len(r.p.i) = Len(Elems(x))
          /\ \A j \in 1..Len(r.p.i) : r.p.i[j] = of(Elems(x)[j], T.a[1]).p
    /\ (r.st = "ok" /\ T.k \in {"set", "frozenset"} /\ ~Vague(r.p)) =>
          /\ \A j \in 1..Len(Elems(x)) : \E l \in 1..Len(r.p.i) : PyEq(w, r.p.i[l], of(Elems(x)[j], T.a[1]).p)
          /\ \A l \in 1..Len(r.p.i) : \E j \in 1..Len(Elems(x)) : r.p.i[l] = of(Elems(x)[j], T.a[1]).p
    /\ (r.st = "ok" /\ T.k = "tuple") =>
          /\ Len(r.p.i) = Len(T.a)
          /\ \A j \in 1..Len(T.a) : r.p.i[j] = of(Elems(x)[j], T.a[j]).p
    /\ (r.st = "ok" /\ T.k = "dict") =>
          \A l \in 1..Len(r.p.d) : \E j \in 1..Len(x.d) :
              PyEq(w, r.p.d[l][1], of(x.d[j][1], T.a[1]).p) /\ r.p.d[l][2] = of(x.d[j][2], T.a[2]).p
    /\ (r.st = "ok" /\ IsObj(t) /\ T.k # "td") =>
          \A j \in 1..Len(x.d) : \A l \in 1..Len(FieldsOf(t)) :
              (FieldsOf(t)[l].init /\ FieldsOf(t)[l].cv = 0 /\ x.d[j][1] = DataName(FieldsOf(t)[l], MangleKey(Cl(w, T.c), o)))
                  => r.p.i[l] = of(x.d[j][2], FieldType(FieldsOf(t)[l], o)).p
    \* plain data that already is what the type asks for stays what it is
    /\ (\A y \in TypesIn({t}) : Ty(w, y).k \in {"list", "tuple", "vtuple", "dict", "any", "none"} \/ IsBasic(w, y, o))
          => (Conforms(v, t, c) => r.st = "ok" /\ Match(w, v, r.p))

(* C03: always an outcome, and of the category that fits the mistake *)
C03 == v # 0 =>
    LET r == R(v, t, o)  x == Nd(w, v)  k == Lookup(w, t, o).k IN
    /\ r.st \in {"ok", "err", "any"}
    \* (an error in a regular expression has a class of its own)
    /\ r.st = "err" => r.cls # {} /\ r.cls \subseteq {"V", "T", "A"} \cup IF Has(t, {"pattern"}) THEN {"X"} ELSE {}
    /\ (r.st = "any" => Has(t, {"union", "enum", "set", "frozenset", "dict", "fref"}))
    /\ (IsObj(t) /\ ~IsMapping(x, o)) => r.st = "err" /\ r.cls = {"A"} /\ r.path = <<>>
    /\ (k \in {"list", "set", "frozenset", "vtuple", "tuple"} /\ (x.k = "dict" \/ ~x.it) /\ \A j \in 1..Len(Ty(w, t).a) : Lookup(w, Ty(w, t).a[j], o).k # "bad")
          => r.st = "err" /\ r.cls = {"T"} /\ r.path = <<>>
    /\ k = "bad" => r.st = "err" /\ r.cls = {"T"}
    /\ (k = "basic" /\ ~o.bc /\ x.t # Ty(w, t).n) => r.st = "err" /\ r.cls = {"V"}
    /\ (k \in {"lit", "none", "union"} /\ r.st = "err") => r.cls = {"V"}
    /\ (k = "enum" /\ r.st = "err") => r.cls = {"V"}

(* C04: the path leads to the refused value *)
RECURSIVE Nav(_, _)
Nav(S, path) ==
    IF path = <<>> THEN S
    ELSE LET s == path[1]
             go(n) == LET x == Nd(w, n) IN
                CASE s.k = "INDEX" -> IF s.n + 1 \in 1..Len(Elems(x)) THEN {Elems(x)[s.n + 1]} ELSE {}
                  [] s.k = "KEY"   -> {s.n} \cap {x.d[j][1] : j \in 1..Len(x.d)}
                  [] s.k = "VALUE" -> {s.n} \cap {x.d[j][2] : j \in 1..Len(x.d)}
                  [] s.k = "FIELD" -> {x.d[j][2] : j \in {j \in 1..Len(x.d) : x.d[j][1] = s.n2}}
                  [] s.k = "FORWARDREF" -> {n}
                  [] OTHER -> {}
         IN Nav(UNION {go(n) : n \in S}, Tail(path))
RECURSIVE Locates(_, _)
Locates(n, e) ==
    e.loose \/
    /\ Nav({n}, e.path) # {}
    /\ e.v # 0 => e.v \in Nav({n}, e.path)
    /\ \A j \in 1..Len(e.subs) : \A m \in Nav({n}, e.path) : e.v = m => Locates(m, e.subs[j].e)
C04 == v # 0 => LET r == R(v, t, o) IN r.st = "err" => Locates(v, r)

(* C05: what is dumped loads back *)
RECURSIVE MayEq(_, _)
MayEq(p, n) ==
    IF p.k = "any" THEN TRUE
    ELSE IF p.k = "alt" THEN \E j \in 1..Len(p.s) : MayEq(p.s[j], n)
    ELSE IF ~Vague(p) THEN PyEq(w, p, PN(n)) /\ (p.k = "inst" => Nd(w, n).k = "inst" /\ Nd(w, n).c = p.c)
    ELSE LET x == Nd(w, n) IN
         CASE p.k \in {"list", "tuple", "inst"} -> Len(x.i) = Len(p.i) /\ \A j \in 1..Len(p.i) : MayEq(p.i[j], x.i[j])
           [] p.k \in {"set", "frozenset"} -> \A j \in 1..Len(x.i) : \E l \in 1..Len(p.i) : MayEq(p.i[l], x.i[j])
           [] p.k = "dict" -> \A j \in 1..Len(x.d) : \E l \in 1..Len(p.d) : MayEq(p.d[l][1], x.d[j][1]) /\ MayEq(p.d[l][2], x.d[j][2])
           [] p.k = "obj" -> Len(x.d) = Len(p.d) /\ \A j \in 1..Len(x.d) : \E l \in 1..Len(p.d) : p.d[l][1] = x.d[j][1] /\ MayEq(p.d[l][2], x.d[j][2])
           [] OTHER -> FALSE
C05 == v # 0 =>
    LET u == W.objs[t][2]  d == D(w, v, o)
        S == {n \in Range(W.vals) : Match(w, n, d.p)}
        \* fields that the constructor does not take are extra data
        strict == o.fe /\ \E y \in TypesIn({u}) : IsObj(y) /\ \E j \in 1..Len(FieldsOf(y)) : ~FieldsOf(y)[j].init
    IN /\ d.st = "ok" /\ S # {}
       /\ ~strict => \A n \in S : LET r == LoadRoot(w, o, n, u, {}, May(u)) IN r.st = "any" \/ (r.st = "ok" /\ MayEq(r.p, v))

(* C06: plain data that mirrors the structure *)
RECURSIVE PPlain(_)
PPlain(p) ==
    CASE p.k = "n" -> Plain(w, p.n, {"bytes"})
      [] p.k = "list" -> \A j \in 1..Len(p.i) : PPlain(p.i[j])
      [] p.k = "dict" -> \A j \in 1..Len(p.d) : PPlain(p.d[j][1]) /\ PPlain(p.d[j][2])
      [] p.k = "obj" -> \A j \in 1..Len(p.d) : PPlain(p.d[j][2])
      [] OTHER -> FALSE
C06 == v # 0 =>
    LET d == D(w, v, o)  x == Nd(w, v) IN
    d.st = "ok" =>
        /\ PPlain(d.p)
        /\ x.k \in {"list", "tuple", "set", "frozenset"} =>
              d.p.k = "list" /\ Len(d.p.i) = Len(x.i) /\ \A j \in 1..Len(x.i) : d.p.i[j] = D(w, x.i[j], o).p
        /\ (x.k = "inst" /\ ~o.hd) => Len(d.p.d) = Cardinality({j \in 1..Len(x.i) : Cl(w, x.c).f[j].rep})
        /\ (x.k = "inst") => \A l \in 1..Len(d.p.d) : \E j \in 1..Len(x.i) : x.i[j] # 0 /\ d.p.d[l][2] = D(w, x.i[j], o).p

(* C07: hidedefault takes away what is at its default, and nothing else *)
RECURSIVE Without(_, _)
Without(n, p) ==     \* p, without the fields of n that are at their defaults
    LET x == Nd(w, n) IN
    CASE x.k = "inst" /\ p.k = "obj" ->
            (LET C == Cl(w, x.c)
                 mk == MangleKey(C, o)
                 field(a) == CHOOSE j \in 1..Len(C.f) : (IF mk = "" THEN C.f[j].na ELSE DataName(C.f[j], mk)) = a
                 keep == Filter(p.d, LAMBDA e : ~AtDefault(w, C, x, field(e[1])))
             IN PObj([j \in 1..Len(keep) |-> <<keep[j][1], Without(x.i[field(keep[j][1])], keep[j][2])>>]))
      [] x.k \in {"list", "tuple", "set", "frozenset"} /\ p.k = "list" ->
            PSeq("list", [j \in 1..Len(p.i) |-> Without(x.i[j], p.i[j])])
      [] x.k = "dict" /\ p.k = "dict" ->
            PDict([j \in 1..Len(p.d) |-> <<p.d[j][1], Without(x.d[j][2], p.d[j][2])>>])
      [] OTHER -> p
C07 == v # 0 =>
    LET a == D(w, v, [o EXCEPT !.hd = FALSE])  b == D(w, v, [o EXCEPT !.hd = TRUE]) IN
    (a.st = "ok" /\ b.st = "ok") => b.p = Without(v, a.p)

(* C08: only the mangled name counts *)
C08 == (v # 0 /\ Ty(w, t).k \in {"dc", "attrs"} /\ IsDict(v)) =>
    LET f == FieldsOf(t)  x == Nd(w, v)
        names == {DataName(f[j], o.mk) : j \in {j \in 1..Len(f) : f[j].init}}
        py == {f[j].na : j \in 1..Len(f)} \ names
        stray == {j \in 1..Len(x.d) : x.d[j][1] \in py}
        used == Filter(x.d, LAMBDA kv : kv[1] \notin py)
        r == R(v, t, o)
    IN /\ (stray # {} /\ o.fe) => r.st # "ok"
       /\ \A n \in Range(W.vals) : (IsDict(n) /\ Nd(w, n).d = used /\ ~o.fe) =>
              LET q == R(n, t, o) IN q.st = r.st /\ (q.st = "ok" => q.p = r.p)
       /\ r.st = "ok" => \A j \in 1..Len(f) : (f[j].init /\ f[j].cv = 0) =>
              (IF \E l \in 1..Len(x.d) : x.d[l][1] = DataName(f[j], o.mk)
               THEN \E l \in 1..Len(x.d) : x.d[l][1] = DataName(f[j], o.mk) /\ r.p.i[j] = L(x.d[l][2], FieldType(f[j], o), [w |-> w, o |-> o, path |-> {t}, roots |-> {}, may |-> May(t)]).p
               ELSE f[j].dk = "val" => r.p.i[j] = PN(f[j].dv))

(* C09: is there anything in n that nobody uses? *)
RECURSIVE Extra(_, _, _)
Extra(n, u, d) ==
    LET x == Nd(w, n)  T == Ty(w, u) IN
    IF d = 0 THEN FALSE ELSE
    CASE T.k \in {"list", "set", "frozenset", "vtuple"} -> x.it /\ \E m \in Range(Elems(x)) : Extra(m, T.a[1], d - 1)
      [] T.k = "tuple" -> x.it /\ (Len(Elems(x)) > Len(T.a) \/ \E j \in 1..Len(T.a) : j <= Len(Elems(x)) /\ Extra(Elems(x)[j], T.a[j], d - 1))
      [] T.k = "dict" -> \E j \in 1..Len(x.d) : Extra(x.d[j][1], T.a[1], d - 1) \/ Extra(x.d[j][2], T.a[2], d - 1)
      [] T.k = "union" -> \E j \in 1..Len(T.a) : Extra(n, T.a[j], d - 1)
      [] T.k = "newtype" -> Extra(n, T.a[1], d - 1)
      [] T.k = "fref" -> \E y \in May(t) : Ty(w, y).nm = T.r /\ Extra(n, y, d - 1)
      [] T.k = "enum" -> \E y \in Range(En(w, T.e).h) : Extra(n, y, d - 1)
      [] IsObj(u) -> \E j \in 1..Len(x.d) :
            LET k == FieldOf(w, Cl(w, T.c), x.d[j][1], MangleKey(Cl(w, T.c), o)) IN
            k <= 0 \/ Extra(x.d[j][2], FieldType(FieldsOf(u)[k], o), d - 1)
      [] OTHER -> FALSE
C09 == v # 0 =>
    LET a == R(v, t, [o EXCEPT !.fe = FALSE])  b == R(v, t, [o EXCEPT !.fe = TRUE])  x == Extra(v, t, 12) IN
    /\ (Sure(a) /\ Sure(b) /\ ~x) => a = b
    /\ (Sure(a) /\ Sure(b) /\ Plainly(t) /\ x) => b.st = "err"
    /\ (b.st = "ok" /\ Plainly(t)) => a = b

(* C10 *)
C10 == v # 0 =>
    LET a == R(v, t, [o EXCEPT !.bc = FALSE])  b == R(v, t, [o EXCEPT !.bc = TRUE]) IN
    /\ (a.st = "ok" /\ Plainly(t)) => b = a
    /\ (IsBasic(w, t, o) /\ Ty(w, t).k # "none") => (a.st = "ok" <=> Nd(w, v).t = Ty(w, t).n)
    /\ (IsBasic(w, t, o) /\ a.st = "ok") => a.p = PN(v)
    \* no basic value is made up
    /\ (a.st = "ok" /\ \A y \in TypesIn({t}) : IsBasic(w, y, o) \/ Ty(w, y).k \in {"list", "tuple", "vtuple", "set", "frozenset", "dict", "none"})
          => Leaves(a.p) \subseteq NodesIn({v})

(* C11, C12 *)
Members == Ty(w, t).a
Listed == Nd(w, v).t \in Range(o.bt) /\ \E j \in 1..Len(Members) : Ty(w, Members[j]).n = Nd(w, v).t
Alone(j, op) == L(v, Members[j], [w |-> w, o |-> op, path |-> {}, roots |-> {}, may |-> May(t)])
Accepting(op) == {j \in 1..Len(Members) : Alone(j, op).st = "ok"}
Certain(op) == \A j \in 1..Len(Members) : Sure(Alone(j, op))
Among(p, S) == \/ \E j \in S : Alone(j, o).p = p
               \/ p.k = "alt" /\ \A l \in 1..Len(p.s) : \E j \in S : Alone(j, o).p = p.s[l]

C11 == (v # 0 /\ Ty(w, t).k = "union") =>
    LET r == R(v, t, o)  op == [o EXCEPT !.dbg = FALSE]  A == Accepting(op)
        NB == {j \in A : ~IsBasic(w, Members[j], o)} IN
    /\ Listed => r = OK(PN(v))
    /\ (~Listed /\ Certain(op) /\ ~o.dbg) =>
          /\ (r.st = "ok" <=> A # {})
          /\ r.st = "ok" => Among(r.p, IF NB # {} THEN NB ELSE A)

C12 == v # 0 =>
    LET a == R(v, t, [o EXCEPT !.dbg = TRUE])  b == R(v, t, [o EXCEPT !.dbg = FALSE]) IN
    /\ ~Has(t, {"union"}) => a = b
    /\ a.st = "ok" => (b = a \/ b.st = "any")
    /\ (Ty(w, t).k = "union" /\ Certain([o EXCEPT !.dbg = TRUE])) =>
          LET A == Accepting([o EXCEPT !.dbg = TRUE]) IN
          /\ Listed => a = b
          /\ (~Listed /\ Cardinality(A) > 1) => a.st = "err" /\ a.cls = {"T"}
          /\ (~Listed /\ Cardinality(A) = 1) => a.st = "ok"
          /\ (~Listed /\ A = {}) => a.st = "err" /\ a.cls = {"V"}

(* C13: what was loaded before only ever adds known names *)
C13 == v # 0 =>
    LET r == R(v, t, o) IN
    \A u \in Range(W.types) : Ty(w, u).nm # 0 =>
        LET q == Rr(v, t, o, {u}) IN
        /\ ~Has(t, {"fref"}) => q = r
        /\ (r.st = "ok" /\ ~Vague(r.p)) => (q = r \/ q.st = "any")
        /\ u = t => (q = r)

(* C14: a class that is being loaded resolves the references to it *)
SelfRef(u) == IsObj(u) /\ \A y \in TypesIn({u}) : Ty(w, y).k = "fref" => Ty(w, y).r = Ty(w, u).nm
OnlyOne(u) == \A y \in May(u) : Ty(w, y).nm = Ty(w, u).nm => y = u
C14 == (v # 0 /\ SelfRef(t) /\ OnlyOne(t)) =>
    LET r == R(v, t, o)
        user == R(v, t, [o EXCEPT !.uf = <<<<Ty(w, t).nm, t>>>>])
        none == R(v, t, [o EXCEPT !.fr = FALSE])
    IN /\ Sure(user) => r = user
       /\ (r.st = "err" /\ r.ty # 0) => Ty(w, r.ty).k # "fref"
       /\ ~Has(t, {"fref"}) => none = r
       /\ (none.st = "ok" /\ Sure(r)) => r.st = "ok"

(* C15: nothing that can be altered is passed on *)
Mutable(n) == n # 0 /\ Nd(w, n).k \in {"list", "set", "dict", "map", "ns", "seq", "gen"}
\* the values of defaults (made by factories, for what can be altered)
Defaults == UNION {{FieldsOf(y)[j].dv : j \in 1..Len(FieldsOf(y))} : y \in {y \in TypesIn({t}) : IsObj(y)}}
C15 == v # 0 =>
    LET r == R(v, t, o) IN
    (r.st = "ok" /\ ~Has(t, {"any"})) => \A n \in (Leaves(r.p) \cap NodesIn({v})) \ Defaults : ~Mutable(n)

(* C16: the first handler that takes a type is the one *)
Handler(pos, u, act, n) == [pos |-> pos, m |-> <<u>>, x |-> <<>>, act |-> act, n |-> n]
RECURSIVE AllAre(_, _, _, _)
AllAre(p, u, y, n) ==   \* wherever p, a load of u, has a y, it is node n
    LET T == Ty(w, u) IN
    CASE u = y -> p = PN(n)
      [] p.k \in {"alt", "any"} -> TRUE
      [] T.k \in {"list", "vtuple", "set", "frozenset"} -> \A j \in 1..Len(p.i) : AllAre(p.i[j], T.a[1], y, n)
      [] T.k = "tuple" -> \A j \in 1..Len(p.i) : AllAre(p.i[j], T.a[j], y, n)
      [] T.k = "dict" -> \A j \in 1..Len(p.d) : AllAre(p.d[j][1], T.a[1], y, n) /\ AllAre(p.d[j][2], T.a[2], y, n)
      [] T.k = "newtype" -> AllAre(p, T.a[1], y, n)
      [] OTHER -> TRUE
C16 == v # 0 =>
    LET n == W.vals[1]  r == R(v, t, o) IN
    \A y \in Range(W.types) :
        LET a == R(v, t, [o EXCEPT !.h = <<Handler("first", y, "const", n)>>])
            b == R(v, t, [o EXCEPT !.h = <<Handler("first", y, "const", n), Handler("first", y, "reject", 0)>>])
            z == R(v, t, [o EXCEPT !.h = <<Handler("last", y, "const", n)>>])
        IN /\ b = a
           /\ y = t => a = OK(PN(n))
           /\ a.st = "ok" => AllAre(a.p, t, y, n)
           /\ (y \notin TypesIn({t}) /\ ~Has(t, {"fref"})) => a = r
           /\ (~Has(t, {"bad", "py", "fref"})) => z = r

(* C17: kinds of objects make no difference *)
FieldPat(u, r, a) ==
    IF r.p.k = "obj"
    THEN LET S == {l \in 1..Len(r.p.d) : r.p.d[l][1] = a} IN IF S = {} THEN PAny ELSE r.p.d[MinOf(S)][2]
    ELSE r.p.i[CHOOSE j \in 1..Len(FieldsOf(u)) : FieldsOf(u)[j].na = a]
C17 == v # 0 =>
    /\ \A j \in 1..Len(W.twins) : t \in Range(W.twins[j]) => \A u \in Range(W.twins[j]) :
         LET a == R(v, t, o)  b == R(v, u, o) IN
         (Sure(a) /\ Sure(b)) =>
            /\ a.st = b.st
            /\ a.st = "ok" => \A l \in 1..Len(FieldsOf(t)) :
                  LET x == FieldsOf(t)[l].na  pa == FieldPat(t, a, x)  pb == FieldPat(u, b, x) IN
                  (pa # PAny /\ pb # PAny) => (pa = pb \/ IsObj(FieldsOf(t)[l].t))
    /\ (IsObj(t) /\ IsDict(v)) =>
         LET f == FieldsOf(t)  mk == MangleKey(Cl(w, Ty(w, t).c), o)
             has(j) == \E kv \in Range(Nd(w, v).d) : kv[1] = DataName(f[j], mk) IN
         /\ R(v, t, o).st = "ok" => \A j \in 1..Len(f) : f[j].req => has(j)
         /\ (R(v, t, o).st = "ok" /\ Ty(w, t).k # "td") =>
               \A j \in 1..Len(f) : (f[j].init /\ ~has(j) /\ f[j].dk = "val" /\ f[j].cv = 0) => R(v, t, o).p.i[j] = PN(f[j].dv)

(* C18: the position makes no difference *)
C18 == v # 0 =>
    LET r == R(v, t, o) IN
    (Sure(r) /\ ~Has(t, {"fref"}) /\ Lookup(w, t, o).k # "bad") =>
    /\ \A u \in Range(W.types) : Ty(w, u).a = <<t>> =>
         /\ Ty(w, u).k = "newtype" => LET q == R(v, u, o) IN q.st = r.st /\ (r.st = "ok" => q.p = r.p)
         /\ Ty(w, u).k \in {"list", "vtuple", "tuple"} => \A n \in Range(W.vals) : (Nd(w, n).k = "list" /\ Nd(w, n).i = <<v>>) =>
                LET q == R(n, u, o) IN
                /\ q.st = r.st
                /\ r.st = "ok" => q.p.i = <<r.p>>
                /\ r.st = "err" => q.path = <<Step("INDEX", 0)>> \o r.path /\ q.cls = r.cls /\ q.v = r.v /\ q.ty = r.ty
    /\ \A u \in Range(W.types) : (Ty(w, u).k = "dict" /\ Ty(w, u).a[2] = t) => \A n \in Range(W.vals) :
          (IsDict(n) /\ Len(Nd(w, n).d) = 1 /\ Nd(w, n).d[1][2] = v) =>
                LET q == R(n, u, o)  k == R(Nd(w, n).d[1][1], Ty(w, u).a[1], o) IN
                (k.st = "ok" /\ Hashable(w, k.p)) => /\ q.st = r.st
                                                     /\ r.st = "ok" => q.p.d[1][2] = r.p
    /\ \A u \in Range(W.types) : (Ty(w, u).k = "union" /\ Len(Ty(w, u).a) = 2 /\ t \in Range(Ty(w, u).a) /\ Ty(w, t).k # "none"
                                  /\ \E y \in Range(Ty(w, u).a) : Ty(w, y).k = "none" /\ Nd(w, v).t # "NoneType") =>
                LET q == R(v, u, o) IN q.st = r.st /\ (r.st = "ok" => q.p = r.p)
    /\ \A u \in Range(W.types) : IsObj(u) => \A j \in 1..Len(FieldsOf(u)) : \A n \in Range(W.vals) :
          (FieldsOf(u)[j].t = t /\ FieldsOf(u)[j].cv = 0 /\ IsDict(n) /\ Nd(w, n).d = <<<<FieldsOf(u)[j].na, v>>>>
             /\ ~IsMangled(FieldsOf(u)[j], o.mk) /\ FieldsOf(u)[j].init /\ \A l \in 1..Len(FieldsOf(u)) : l = j \/ ~FieldsOf(u)[l].req) =>
                LET q == R(n, u, o) IN (Sure(q) /\ Cl(w, Ty(w, u).c).g.f = 0) => q.st = r.st

(* C19: nor does what is going on around it *)
C19 == v # 0 =>
    LET r == R(v, t, o) IN
    \A u \in Range(W.types) :
        (Ty(w, u).nm # 0 /\ ~Has(t, {"fref"})) =>
            L(v, t, [w |-> w, o |-> o, path |-> {u}, roots |-> {u}, may |-> May(u)]) = r

(* C20: an annotation is of one kind only *)
C20 ==
    LET S == Classify(w, t) \ {"optional"} IN
    /\ Cardinality(S) <= 1
    /\ "optional" \in Classify(w, t) => Ty(w, t).k = "union" /\ Len(Ty(w, t).a) = 2
    /\ (Ty(w, t).k \notin {"py", "date", "timedelta", "bad"}) => Cardinality(S) = 1
    /\ \A u \in Range(W.types) : (u # t /\ Ty(w, u) = Ty(w, t)) => Classify(w, u) = Classify(w, t)

(* C21: deferred annotations; a class and its twin with evaluated ones *)
C21 == v # 0 =>
    \A j \in 1..Len(W.twins) : t \in Range(W.twins[j]) => \A u \in Range(W.twins[j]) :
        LET a == R(v, t, [o EXCEPT !.pep = TRUE])  b == R(v, u, [o EXCEPT !.pep = TRUE]) IN
        (Ty(w, t).k = Ty(w, u).k /\ Sure(a) /\ Sure(b)) =>
           /\ a.st = b.st
           /\ a.st = "err" => a.cls = b.cls /\ Len(a.path) = Len(b.path)
           /\ (a.st = "ok" /\ a.p.k = "inst" /\ ~Has(t, {"dc", "nt"} \ {Ty(w, t).k})) =>
                 \A l \in 1..Len(a.p.i) : IsObj(FieldsOf(t)[l].tp) \/ Has(t, {"fref"}) \/ a.p.i[l] = b.p.i[l]

(* C22: special scalars come back from their dump *)
C22 == v # 0 =>
    LET u == W.objs[t][2]  d == D(w, v, o)  k == DKind(w, v, o) IN
    (k \in {"date", "delta", "pat", "str"} /\ d.st = "ok" /\ Ty(w, u).lf # 0 /\ Nd(w, d.p.n).x # <<>>) =>
        LET f == Fact(w, d.p.n, Ty(w, u).lf, u) IN f.st = "any" \/ (f.st = "ok" /\ PyEq(w, f.p, PN(v)))

(* C23 *)
C23 == (v # 0 /\ Lookup(w, t, o).k = "enum") =>
    LET r == R(v, t, o)  E == En(w, Ty(w, t).e)
        members == {E.m[j][2] : j \in 1..Len(E.m)} IN
    /\ r.st = "ok" => r.p.k = "n" /\ r.p.n \in members
    /\ v \in members => r = OK(PN(v))
    /\ (v \notin members /\ r.st = "ok" /\ E.h = <<>>) => \E j \in 1..Len(E.m) : E.m[j][2] = r.p.n /\ PyEq(w, PN(v), PN(E.m[j][1]))
    /\ (v \notin members /\ \E j \in 1..Len(E.m) : PyEq(w, PN(v), PN(E.m[j][1]))) => r.st = "ok"
    /\ (r.st = "err") => r.cls = {"V"} /\ r.path = <<>>
    /\ \A j \in 1..Len(E.m) : D(w, E.m[j][2], o).st = "ok" => D(w, E.m[j][2], o).p = D(w, E.m[j][1], o).p

(* C24: pairs of a Namespace and the dictionary of its attributes *)
RECURSIVE SameBut(_, _)
SameBut(a, b) ==   \* a and b are the same, but for Namespaces instead of dictionaries
    LET x == Nd(w, a)  y == Nd(w, b) IN
    \/ a = b
    \/ /\ x.k = y.k \/ (x.k = "dict" /\ y.k = "ns")
       /\ x.k # "a" /\ Len(x.i) = Len(y.i) /\ Len(x.d) = Len(y.d)
       /\ \A j \in 1..Len(x.i) : SameBut(x.i[j], y.i[j])
       /\ \A j \in 1..Len(x.d) : x.d[j][1] = y.d[j][1] /\ SameBut(x.d[j][2], y.d[j][2])
C24 == (v # 0 /\ IsDict(v)) => \A n \in Range(W.vals) : (n # v /\ SameBut(v, n)) =>
    LET a == R(v, t, o)  b == R(n, t, o) IN
    (Sure(a) /\ Sure(b) /\ ~Has(t, {"any"}) /\ Lookup(w, t, o).k \notin {"basic", "strc"}) =>
       /\ (o.de /\ ~Has(t, {"union", "enum", "py", "strc"})) => a.st = b.st
       /\ (o.de /\ ~Has(t, {"union", "enum", "py"}) /\ a.st = "ok" /\ b.st = "ok" /\ Leaves(a.p) \cap {m \in NodesIn({v}) : Mutable(m)} = {}) => a.p = b.p
       /\ (~o.de /\ Nd(w, n).k = "ns" /\ (IsObj(t) \/ Ty(w, t).k = "dict")) => b.st = "err" /\ b.cls \subseteq {"A", "T"}
       /\ (Ty(w, t).k \in {"list", "set", "frozenset", "tuple", "vtuple"}) => b.st # "ok" \/ Nd(w, n).k # "ns"

(* C25 *)
C25 == (v # 0 /\ Ty(w, t).k = "union") =>
    LET r == R(v, t, o) IN
    (r.st = "err" /\ Certain(o)) =>
        LET F == {j \in 1..Len(Members) : Alone(j, o).st = "err"} IN
        /\ r.sk
        /\ Len(r.subs) = Cardinality(F)
        /\ \A j \in F : \E l \in 1..Len(r.subs) :
               /\ r.subs[l].ty = Members[j]
               /\ Lookup(w, Members[j], o).k # "bad" => r.subs[l].e = Alone(j, o)
        /\ o.dbg \/ Len(r.subs) = Len(Members)
C25Enum == (v # 0 /\ Ty(w, t).k = "enum" /\ Lookup(w, t, o).k = "enum") =>
    LET r == R(v, t, o) IN
    r.st = "err" => [j \in 1..Len(r.subs) |-> r.subs[j].ty] = En(w, Ty(w, t).e).h

(* C26: options that have nothing to do with a load make no difference *)
NoNs == \A n \in NodesIn({v}) : n = 0 \/ Nd(w, n).k # "ns"
C26 == v # 0 =>
    LET r == R(v, t, o) IN
    /\ ~Has(t, {"union"}) => R(v, t, [o EXCEPT !.dbg = ~@]) = r
    /\ ~Has(t, {"nt", "dc", "attrs", "td", "tuple"}) => R(v, t, [o EXCEPT !.fe = ~@]) = r
    /\ NoNs => R(v, t, [o EXCEPT !.de = ~@]) = r
    /\ (\A y \in TypesIn({t}) : IsObj(y) => \A j \in 1..Len(FieldsOf(y)) : FieldsOf(y)[j].t = FieldsOf(y)[j].tp)
          => R(v, t, [o EXCEPT !.pep = ~@]) = r
    /\ (\A y \in TypesIn({t}) : Ty(w, y).k \in {"dc", "attrs"} => \A j \in 1..Len(FieldsOf(y)) : FieldsOf(y)[j].mn = <<>>)
          => R(v, t, [o EXCEPT !.mk = "other"]) = r
    /\ (\A y \in TypesIn({t}) : ~IsBasic(w, y, o)) => R(v, t, [o EXCEPT !.bc = ~@]) = r
    /\ ~Has(t, {"fref"}) => R(v, t, [o EXCEPT !.fr = FALSE]) = r

-----------------------------------------------------------------------------
Holds ==
    CASE Prop = "C01" -> C01 [] Prop = "C02" -> C02 [] Prop = "C03" -> C03 [] Prop = "C04" -> C04
      [] Prop = "C05" -> C05 [] Prop = "C06" -> C06 [] Prop = "C07" -> C07 [] Prop = "C08" -> C08
      [] Prop = "C09" -> C09 [] Prop = "C10" -> C10 [] Prop = "C11" -> C11 [] Prop = "C12" -> C12
      [] Prop = "C13" -> C13 [] Prop = "C14" -> C14 [] Prop = "C15" -> C15 [] Prop = "C16" -> C16
      [] Prop = "C17" -> C17 [] Prop = "C18" -> C18 [] Prop = "C19" -> C19 [] Prop = "C20" -> C20 [] Prop = "C21" -> C21
      [] Prop = "C22" -> C22 [] Prop = "C23" -> C23 [] Prop = "C24" -> C24 [] Prop = "C25" -> C25 /\ C25Enum
      [] Prop = "C26" -> C26 [] OTHER -> TRUE
=============================================================================
