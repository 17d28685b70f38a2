------------------------------ MODULE Histories ------------------------------
(***************************************************************************)
(* Every history of up to Depth calls from a repertoire, on a group of     *)
(* loaders and dumpers that are kept: TypedLoad with the calls chosen      *)
(* freely.  Checked here: what was called before changes outcomes only     *)
(* where a forward reference became known.  Each complete history is also  *)
(* printed; the harness replays it against the real code, and Trace        *)
(* validates what happened.                                                *)
(*                                                                         *)
(* The states of different histories that agree on the loaders (roots) are *)
(* told apart by the history itself, so that none is left out.             *)
(***************************************************************************)
EXTENDS TypedLoad, Json, IOUtils

Data == JsonDeserialize(IOEnv.MODEL_FILE)
HWorlds == Data.worlds
HPrograms == Data.programs      \* ev: the repertoire

VARIABLE hist
hvars == <<p, i, roots, hist>>

Depth(q) == Programs[q].depth

HInit == Init /\ hist = <<>>

Call(k) ==
    LET e == Prog.ev[k] IN
    /\ hist' = Append(hist, k)
    /\ IF e.op = "load" THEN Load(e.l, e.v, e.t) ELSE Dump(e.l, e.v)

HNext ==
    /\ Len(hist) < Depth(p)
    /\ \E k \in 1..Len(Prog.ev) : Call(k)
    /\ UNCHANGED <<p, i>>

HSpec == HInit /\ [][HNext]_hvars

\* the outcome of call e now, and on loaders that were never used
Now(e)   == IF e.op = "load" THEN L(e.v, e.t, Ctx(e.l, e.t)) ELSE D(Prog.w, e.v, Prog.dd[e.l])
Fresh(e) == IF e.op = "load"
            THEN LoadRoot(Prog.w, Prog.ld[e.l], e.v, e.t, {}, Reach(Prog.w, {e.t} \cup Range(Prog.ld[e.l].ext)))
            ELSE D(Prog.w, e.v, Prog.dd[e.l])

\* the forward reference that a failure ends at
Unknown(r) == r.st = "err" /\ r.ty # 0 /\ Ty(Prog.w, r.ty).k = "fref"
RECURSIVE AnyUnknown(_)
AnyUnknown(r) == Unknown(r) \/ (r.st = "err" /\ \E j \in 1..Len(r.subs) : AnyUnknown(r.subs[j].e))

NoHistory ==
    \A k \in 1..Len(Prog.ev) :
        LET e == Prog.ev[k]  a == Fresh(e)  b == Now(e) IN
        a = b \/ a.st = "any" \/ b.st = "any" \/ AnyUnknown(a)

OneLoader == \A l \in 1..Len(Prog.ld) : roots[l] = {Prog.ev[hist[j]].t : j \in {j \in 1..Len(hist) : Prog.ev[hist[j]].op = "load" /\ Prog.ev[hist[j]].l = l}}

Printed == Len(hist) = Depth(p) => PrintT("HIST " \o ToString(p) \o " " \o ToString(hist))
=============================================================================
