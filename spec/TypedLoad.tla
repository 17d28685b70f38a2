------------------------------ MODULE TypedLoad ------------------------------
(***************************************************************************)
(* The library as a state machine: loaders and dumpers that are used again *)
(* and again.  The only state a loader is allowed to have, as far as its   *)
(* outcomes can tell, is the set of the types it was asked to load: those  *)
(* are known to forward references.  A dumper has none.  Everything else   *)
(* that the implementation keeps (caches of handlers, of fields, of        *)
(* discriminators, of defaults) must not be observable.                    *)
(*                                                                         *)
(* A program is one sequence of calls on a group of loaders and dumpers:   *)
(*   w    its world      ld  configurations of the loaders                 *)
(*   ev   calls          dd  configurations of the dumpers                 *)
(***************************************************************************)
EXTENDS Dump

CONSTANT Programs

VARIABLES p,      \* the program
          i,      \* the next call
          roots   \* per loader, the types it was asked to load
vars == <<p, i, roots>>

Prog == Programs[p]
Ev   == Prog.ev[i]

Init ==
    /\ p \in 1..Len(Programs)
    /\ i = 1
    /\ roots = [l \in 1..Len(Programs[p].ld) |-> {}]

\* the named types that come up inside the types of S
Reach(w, S) == UNION {Range(Ty(w, t).cl) : t \in S}

Ctx(l, t) ==
    LET R == roots[l] IN
    [w |-> Prog.w, o |-> Prog.ld[l], path |-> {}, roots |-> R, may |-> Reach(Prog.w, R \cup {t} \cup Range(Prog.ld[l].ext))]

Expect(l, v, t) == L(v, t, Ctx(l, t))

Load(l, v, t) ==
    /\ roots' = [roots EXCEPT ![l] = @ \cup {t}]

Dump(d, v) == UNCHANGED roots
=============================================================================
