-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of recorded calls: every call of a program is one step of    *)
(* TypedLoad, and what the code did is compared with what it had to do.    *)
(* The verdict is total: a call that is not as specified is printed with   *)
(* the clauses that it breaks, and validation goes on.                     *)
(*                                                                         *)
(* observed: st "ok": r result, al nodes shared with the input             *)
(*           st "err": cls, path, v, ty, rv and rt (first trace item),     *)
(*               so (str() worked), pl (the Path line), lines (all paths   *)
(*               in the message), ml (the message lists the enum values),  *)
(*               subs                                                      *)
(*           st "leak": another exception                                  *)
(*           fl: clauses broken as seen from outside (inputs, classes or   *)
(*               options altered, ...)                                     *)
(***************************************************************************)
EXTENDS TypedLoad, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
TWorlds == Data.worlds
TPrograms == Data.programs
Explain == IOEnv.TRACE_EXPLAIN = "1"

-----------------------------------------------------------------------------
SameStep(w, b, e) ==
    /\ b.k = e.k
    /\ IF b.k \in {"FIELD", "KEY", "VALUE", "FORWARDREF"}
       THEN b.n # 0 /\ (Same(w, b.n, e.n) \/ Same(w, b.n, e.n2))
       ELSE b.n = e.n

SamePath(w, b, e) ==
    Len(b) = Len(e) /\ \A j \in 1..Len(e) : SameStep(w, b[j], e[j])

SameRefused(w, b, e) ==
    \* an exception with neither value nor type looks like one for None
    /\ e.v # 0 => \/ b.v # 0 /\ Same(w, b.v, e.v)
                  \/ b.v = 0 /\ Nd(w, e.v).t = "NoneType"
    \* None and its class are the same annotation
    /\ e.ty # 0 => b.ty = e.ty \/ (b.ty # 0 /\ Ty(w, b.ty).k = "none" /\ Ty(w, e.ty).k = "none")

StepStr(w, s) ==
    CASE s.k = "INDEX" -> "[" \o ToString(s.n) \o "]"
      [] s.k \in {"FIELD", "KEY", "VALUE", "FORWARDREF"} -> IF s.n = 0 THEN "?" ELSE Nd(w, s.n).s
      [] OTHER -> "?"

RECURSIVE Join(_, _)
Join(w, path) ==
    IF path = <<>> THEN "" ELSE "." \o StepStr(w, Head(path)) \o Join(w, Tail(path))

PathStr(w, path) == IF path = <<>> THEN "." ELSE Join(w, path)

Printable(w, path) ==
    \A j \in 1..Len(path) : path[j].k \notin {"INDEX"} => (path[j].n # 0 /\ path[j].k # "UNION" /\ Nd(w, path[j].n).s # "")

(* What is wrong with the sub exceptions bs, given the expected es *)
RECURSIVE CmpSubs(_, _, _)
CmpSubs(w, bs, es) ==
    IF Len(bs) # Len(es) THEN {"subs"}
    ELSE UNION {
        LET e == es[j]
            S == {l \in 1..Len(bs) : bs[l].path # <<>> /\ bs[l].path[1].k = "UNION"
                                     /\ bs[l].path[1].n = e.ty}
        IN IF S = {} THEN {"subs"}
           ELSE LET b == bs[MinOf(S)] IN
                (IF Cardinality(S) > 1 THEN {"subs"} ELSE {})
                \cup (IF b.cls \in e.e.cls THEN {} ELSE {"subcat"})
                \cup (IF e.e.loose \/ SamePath(w, Tail(b.path), e.e.path) THEN {} ELSE {"subpath"})
                \cup (IF SameRefused(w, b, e.e) THEN {} ELSE {"sublocated"})
                \cup (IF e.e.sk THEN CmpSubs(w, b.subs, e.e.subs) ELSE {})
        : j \in 1..Len(es)}

(* The paths that the message has to show for the sub exceptions *)
RECURSIVE Lines(_, _)
Lines(prefix, bs) ==
    UNION {IF bs[l].path = <<>> THEN {}
           ELSE LET full == prefix \o Tail(bs[l].path) IN
                {full} \cup Lines(full, bs[l].subs)
           : l \in 1..Len(bs)}

CmpErr(c, v, t, e, b) ==
    LET w == c.w IN
    (IF b.cls \in e.cls THEN {} ELSE {"category"})
    \cup (IF b.so THEN {} ELSE {"str"})
    \cup (IF e.loose \/ SamePath(w, b.path, e.path) THEN {} ELSE {"path"})
    \cup (IF SameRefused(w, b, e) THEN {} ELSE {"located"})
    \cup (IF Lookup(w, t, c.o).k = "bad" \/ (b.rt = t /\ b.rv # 0 /\ Same(w, b.rv, v)) THEN {} ELSE {"root"})
    \cup (IF Lookup(w, t, c.o).k = "bad" \/ ~b.so \/ ~Printable(w, b.path) \/ b.pl = PathStr(w, b.path)
          THEN {} ELSE {"pathline"})
    \cup (IF e.sk THEN CmpSubs(w, b.subs, e.subs) ELSE {})
    \cup (IF e.sk /\ b.so /\ \E q \in Lines(b.path, b.subs) :
                 Printable(w, q) /\ PathStr(w, q) \notin Range(b.lines)
          THEN {"render"} ELSE {})
    \cup (IF ~e.loose /\ e.ty # 0 /\ Lookup(w, e.ty, c.o).k = "enum"
             /\ LET m == En(w, Ty(w, e.ty).e).m IN
                /\ Len(m) <= 10
                /\ \A j \in 1..Len(m) : Nd(w, m[j][1]).t \in Names(c.o.bt)
                /\ b.ml # 1
          THEN {"enumlist"} ELSE {})

(* nodes of the input that the result passes through *)
RECURSIVE Through(_)
Through(q) ==
    CASE q.k = "n" -> {q.n}
      [] q.k = "alt" -> UNION {Through(q.s[j]) : j \in 1..Len(q.s)}
      [] q.k \in {"list", "tuple", "set", "frozenset", "inst"} -> UNION {Through(q.i[j]) : j \in 1..Len(q.i)}
      [] q.k = "dict" -> UNION {Through(q.d[j][1]) \cup Through(q.d[j][2]) : j \in 1..Len(q.d)}
      [] q.k = "obj" -> UNION {Through(q.d[j][2]) : j \in 1..Len(q.d)}
      [] OTHER -> {}

RECURSIVE Inside(_, _)
Inside(w, S) ==
    LET x(n) == Nd(w, n)
        S2 == S \cup UNION {Range(x(n).i) \cup {kv[1] : kv \in Range(x(n).d)} \cup {kv[2] : kv \in Range(x(n).d)}
                            : n \in S \ {0}}
    IN IF S2 = S THEN S ELSE Inside(w, S2)

CmpAlias(w, b, q) ==
    IF b.al = <<>> \/ Vague(q) THEN {}
    ELSE LET ok == Inside(w, Through(q)) IN
         IF \A j \in 1..Len(b.al) : b.al[j] \in ok THEN {} ELSE {"alias"}

\* the deserialized configuration of a loader may have user code at any depth
VerdictLoad(c, v, t, e, b) ==
    LET w == c.w IN
    Range(b.fl) \cup
    CASE e.st = "ok" ->
           (CASE b.st = "ok" -> (IF Match(w, b.r, e.p) THEN {} ELSE {"value"})
                                \cup (IF Conforms(b.r, t, c) THEN {} ELSE {"conform"})
                                \cup CmpAlias(w, b, e.p)
              [] b.st = "err" -> {"refused"}
              [] OTHER -> {"leak"})
      [] e.st = "err" ->
           (CASE b.st = "ok" -> {"accepted"} \cup (IF Conforms(b.r, t, c) THEN {} ELSE {"conform"})
              [] b.st = "err" -> CmpErr(c, v, t, e, b)
              [] OTHER -> {"leak"})
      [] e.st = "raise" -> IF b.st = "ok" THEN {"returned"} ELSE {}
      [] OTHER -> (CASE b.st = "ok" -> IF Conforms(b.r, t, c) THEN {} ELSE {"conform"}
                     [] b.st = "err" -> {}
                     [] OTHER -> IF c.o.h # <<>> THEN {} ELSE {"leak"})

VerdictDump(w, o, n, e, b, exempt) ==
    Range(b.fl) \cup
    CASE e.st = "ok" ->
           (CASE b.st = "ok" -> (IF Match(w, b.r, e.p) THEN {} ELSE {"dumped"})
                                \cup (IF Plain(w, b.r, exempt) THEN {} ELSE {"plain"})
                                \cup (IF b.al = <<>> \/ o.h # <<>> THEN {} ELSE {"alias"})
              [] OTHER -> {"undumped"})
      [] e.st = "err" -> (CASE b.st = "ok" -> {"dumpaccepted"}
                            [] b.st = "err" -> IF b.cls = "V" THEN {} ELSE {"dumpcategory"}
                            [] OTHER -> {"leak"})
      [] e.st = "raise" -> IF b.st = "ok" THEN {"returned"} ELSE {}
      [] OTHER -> {}

-----------------------------------------------------------------------------
(* Round trip: r is the value that was loaded from the dump of v *)
VerdictBack(w, v, b) ==
    CASE b.st = "ok" -> IF PyEq(w, PN(b.r), PN(v)) /\ Nd(w, b.r).t = Nd(w, v).t THEN {} ELSE {"back"}
      [] OTHER -> {"back"}

(* The outcomes a and b of two calls are the same *)
RECURSIVE SameOutcome(_, _, _)
SameOutcome(w, a, b) ==
    /\ a.st = b.st
    /\ CASE a.st = "ok"  -> Same(w, a.r, b.r)
         [] a.st = "err" -> /\ a.cls = b.cls
                            /\ SamePath(w, a.path, [j \in 1..Len(b.path) |-> Step(b.path[j].k, b.path[j].n)])
                            /\ Len(a.subs) = Len(b.subs)
                            /\ \A j \in 1..Len(a.subs) : \E l \in 1..Len(b.subs) :
                                    a.subs[j].path = b.subs[l].path /\ a.subs[j].cls = b.subs[l].cls
         [] OTHER -> TRUE

VerdictPred(w, e) ==
    LET T == Ty(w, e.t) IN
    (IF Range(e.preds) = Classify(w, e.t) THEN {} ELSE {"predicate"})
    \cup (IF T.k = "union" /\ Range(e.args) # Range(T.a) THEN {"members"} ELSE {})
    \cup (IF T.k = "lit" /\ ~(/\ Range(e.args) \subseteq Range(T.v)
                             /\ \A j \in 1..Len(T.v) : \E l \in 1..Len(e.args) :
                                    PyEq(w, PN(T.v[j]), PN(e.args[l])))
             THEN {"members"} ELSE {})
    \cup (IF T.k = "notrequired" /\ e.args # T.a THEN {"members"} ELSE {})
    \cup Range(e.fl)

-----------------------------------------------------------------------------
Expected ==
    LET e == Ev IN
    CASE e.op = "load" -> L(e.v, e.t, Ctx(e.l, e.t))
      [] e.op = "dump" -> D(Prog.w, e.v, Prog.dd[e.l])
      [] OTHER -> [st |-> "ok"]

\* the clauses that the call breaks, when x was to be expected
Verdict(x) ==
    LET e == Ev  w == Prog.w IN
    CASE e.op = "load" -> VerdictLoad(Ctx(e.l, e.t), e.v, e.t, x, e.o)
      [] e.op = "dump" -> VerdictDump(w, Prog.dd[e.l], e.v, x, e.o, Range(e.ex))
      [] e.op = "back" -> VerdictBack(w, e.v, e.o)
      [] e.op = "same" -> IF SameOutcome(w, e.o, e.o2) THEN Range(e.fl) ELSE {e.cl}
      [] e.op = "pred" -> VerdictPred(w, e)
      [] e.op = "flag" -> Range(e.fl)
      [] OTHER -> {"unknown"}

Where == ToString(p) \o " " \o ToString(i)

Report(x, S) ==
    /\ S # {} => PrintT("FAIL " \o Where \o " " \o ToString(S))
    /\ x.st = "any" => PrintT("ANY " \o Where)
    /\ Explain => PrintT("EXPECT " \o Where \o " " \o ToString(x))

TNext ==
    /\ i <= Len(Prog.ev)
    /\ PrintT("AT " \o Where)
    /\ LET x == TLCEval(Expected) IN Report(x, Verdict(x))
    /\ i' = i + 1
    /\ p' = p
    /\ IF Ev.op = "load" THEN Load(Ev.l, Ev.v, Ev.t) ELSE UNCHANGED roots

TSpec == Init /\ [][TNext]_vars
=============================================================================
