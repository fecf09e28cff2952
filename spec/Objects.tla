------------------------------- MODULE Objects -------------------------------
(* C++ objects held and passed by Rust.  Slots hold objects in one of several  *)
(* ways; operations construct, copy, move, convert, pass and drop them.  The   *)
(* specification says which operations are possible, what the slots hold       *)
(* afterwards and which C++ calls see which values (operation level), and      *)
(* which sequences of constructions, copies, moves, destructions and           *)
(* allocations may happen on the way (event level).  Properties P10 and P13.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS NSlots,
          Classes,       \* "full","mo","co","alloc": copyable and movable, move-only, copy-only, with its own operator new
          Kinds,         \* ways of holding: "up" unique_ptr, "bx" pinned box, "cp" CppPin, "upp" CppUniquePtrPin
          StartKinds,    \* what slots may hold at the start: those, "none" and "null"
          Vals, OpNames, Modes, RModes, MaxOps

VARIABLES cls, slots, hist
vars == <<cls, slots, hist>>

Sl == 1..NSlots
Copyable(c) == c # "mo"
Movable(c) == c # "co"

-----------------------------------------------------------------------------
(* Operation level.                                                           *)
NoArg == [m |-> "-", s |-> 1, v |-> 0]
Op(n) == [n |-> n, s |-> 1, t |-> 1, k |-> "-", v |-> 0, a |-> NoArg, b |-> NoArg]

Held(sl, i) == sl[i].k \notin {"none", "null"}
Ptr(sl, i)  == sl[i].k \in {"up", "null"}

\* A by-value parameter.
ByVal(sl, c, x) ==
    CASE x.m \in {"ref", "cref"}   -> Copyable(c) /\ Held(sl, x.s)
      [] x.m \in {"upref", "cup"}  -> Copyable(c) /\ Ptr(sl, x.s)
      [] x.m \in {"bxref", "cbx"}  -> Copyable(c) /\ sl[x.s].k = "bx"
      [] x.m = "up"                -> Ptr(sl, x.s)
      [] x.m = "bx"                -> sl[x.s].k = "bx"
      [] x.m = "mup"               -> Movable(c) /\ Ptr(sl, x.s)
      [] x.m = "mbx"               -> Movable(c) /\ sl[x.s].k = "bx"
      [] x.m = "mst"               -> Movable(c) /\ x.s = 1
      [] x.m \in {"new", "mk"}     -> x.s = 1
\* An rvalue reference parameter.
ByRv(sl, c, x) ==
    CASE x.m = "up" -> Ptr(sl, x.s)
      [] x.m = "bx" -> sl[x.s].k = "bx"
      [] x.m = "st" -> x.s = 1
Fresh == {"mst", "new", "mk", "st"}
UsesSlot(x) == x.m \notin Fresh /\ x.m # "-"
Eaten(x) == IF x.m \in {"up", "bx", "cup", "cbx", "mup", "mbx"} THEN {x.s} ELSE {}
Used(x)  == IF UsesSlot(x) THEN {x.s} ELSE {}
IsNull(sl, x) == UsesSlot(x) /\ sl[x.s].k = "null"
ArgVal(sl, x) == IF UsesSlot(x) THEN sl[x.s].v ELSE x.v

One == {"take", "echo", "sink", "sinkbx", "put", "vput", "sput"}
Calls1 == One \cup {"rtake", "rsteal"}
Calls2 == {"take2", "vr", "rv"}
Passing == Calls1 \cup Calls2
OkA(sl, c, o) == IF o.n \in {"rtake", "rsteal", "rv"} THEN ByRv(sl, c, o.a) ELSE ByVal(sl, c, o.a)
OkB(sl, c, o) == IF o.n = "vr" THEN ByRv(sl, c, o.b) ELSE ByVal(sl, c, o.b)

Panics(sl, o) == o.n \in Passing /\ (IsNull(sl, o.a) \/ IsNull(sl, o.b))

Valid(sl, c, o) ==
    CASE o.n \in {"new", "make"} -> sl[o.s].k = "none" /\ o.k \in Kinds
      [] o.n \in {"makeup", "null"} -> sl[o.s].k = "none"
      [] o.n = "copy" -> Copyable(c) /\ Held(sl, o.s) /\ sl[o.t].k = "none" /\ o.k \in Kinds
      [] o.n = "mov"  -> Movable(c) /\ sl[o.s].k \in {"up", "bx"} /\ sl[o.t].k = "none" /\ o.k \in Kinds
      [] o.n = "drop" -> sl[o.s].k # "none"
      [] o.n = "shift" -> sl[o.s].k # "none" /\ sl[o.t].k = "none"
      [] o.n = "conv" -> sl[o.s].k \in {"up", "bx", "cp"}
      [] o.n = "raw"  -> sl[o.s].k = "up"
      [] o.n \in {"set", "refs"} -> Held(sl, o.s)
      [] o.n \in {"stack", "stackmake"} -> o.s = 1
      [] o.n = "passup" -> Ptr(sl, o.s)
      [] o.n = "borrow" -> Held(sl, o.s) /\ sl[o.t].k \in {"up", "bx"} /\ o.s # o.t
      [] o.n \in Calls1 -> /\ OkA(sl, c, o)
                           /\ o.n = "echo" => /\ o.k \in Kinds /\ (sl[o.t].k = "none" \/ o.t \in Eaten(o.a))
                                              \* (storage in a UniquePtr is lost when a constructor panics: moveit documents that)
                                              /\ IsNull(sl, o.a) => o.k \notin {"up", "upp"}
      [] o.n \in Calls2 -> OkA(sl, c, o) /\ OkB(sl, c, o) /\ Eaten(o.a) \cap Used(o.b) = {} /\ Eaten(o.b) \cap Used(o.a) = {}

Empty == [k |-> "none", v |-> 0]
EatenBy(o) == IF o.n \in Passing THEN Eaten(o.a) \cup Eaten(o.b)
              ELSE IF o.n \in {"mov", "drop", "shift"} THEN {o.s} ELSE {}
After(sl, o) ==
    LET left == [i \in Sl |-> IF i \in EatenBy(o) THEN Empty ELSE sl[i]]
    IN  CASE o.n \in {"new", "make"} -> [sl EXCEPT ![o.s] = [k |-> o.k, v |-> o.v]]
          [] o.n = "makeup" -> [sl EXCEPT ![o.s] = [k |-> "up", v |-> o.v]]
          [] o.n = "null" -> [sl EXCEPT ![o.s] = [k |-> "null", v |-> 0]]
          [] o.n \in {"copy", "mov"} -> [left EXCEPT ![o.t] = [k |-> o.k, v |-> sl[o.s].v]]
          [] o.n = "shift" -> [left EXCEPT ![o.t] = sl[o.s]]
          [] o.n = "conv" -> [sl EXCEPT ![o.s].k = IF sl[o.s].k = "up" THEN "upp" ELSE IF sl[o.s].k = "bx" THEN "cp" ELSE "bx"]
          [] o.n = "set" -> [sl EXCEPT ![o.s].v = o.v]
          [] o.n = "echo" -> IF Panics(sl, o) THEN left ELSE [left EXCEPT ![o.t] = [k |-> o.k, v |-> ArgVal(sl, o.a)]]
          [] OTHER -> left
\* Where the object in slot i was before, if it is the same one.
From(o, i) == IF o.n = "shift" /\ i = o.t THEN o.s
              ELSE IF o.n \in {"new", "make", "makeup", "null"} /\ i = o.s THEN 0
              ELSE IF o.n \in {"copy", "mov", "echo"} /\ i = o.t THEN 0 ELSE i

\* The C++ functions which run, and the values they see.
CallsOf(sl, o) ==
    LET f == IF o.n = "sinkbx" THEN "sink" ELSE o.n
        me == IF Panics(sl, o) \/ o.n \notin Passing THEN <<>>
              ELSE <<[f |-> f, a |-> ArgVal(sl, o.a), b |-> IF o.n \in Calls2 THEN ArgVal(sl, o.b) ELSE -1]>>
    IN  CASE o.n = "passup" -> <<[f |-> "passup", a |-> IF sl[o.s].k = "null" THEN -1 ELSE sl[o.s].v, b |-> -1]>>
          [] o.n = "borrow" -> <<[f |-> "borrow", a |-> sl[o.s].v, b |-> sl[o.t].v]>>
          [] o.n \in {"put", "vput"} -> <<[f |-> "sink", a |-> 9, b |-> -1]>> \o me
          [] OTHER -> me

-----------------------------------------------------------------------------
(* Event level.  Objects are numbered as they are constructed.                 *)
\* st: [objs: Seq([a: alive, v: value]), blk: Seq(BOOLEAN), ncalls, bad: set]
Start == [objs |-> <<>>, blk |-> <<>>, n |-> 0, born |-> 0, bad |-> {}]
Alive(st, i) == i \in DOMAIN st.objs /\ st.objs[i].a
Bad(st, r) == [st EXCEPT !.bad = @ \cup {r}]
ValOf(st, i) == IF Alive(st, i) THEN st.objs[i].v ELSE IF i = 0 THEN -1 ELSE -2

\* keep: the objects which this operation may not end or empty; calls: the calls to come.
Event(st, e, keep, calls) ==
    CASE e.e \in {"ctor", "copy", "move"} ->
           LET s1 == [st EXCEPT !.objs = Append(@, [a |-> TRUE, v |-> e.v]), !.born = @ + 1]
               s2 == IF e.e = "move" /\ Alive(st, e.s) THEN [s1 EXCEPT !.objs[e.s].v = 0] ELSE s1
           IN  [s2 EXCEPT !.bad = @ \cup (IF e.over # 0 THEN {"constructed-over-a-live-object"} ELSE {})
                                     \cup (IF e.o # Len(st.objs) + 1 THEN {"lost-count"} ELSE {})
                                     \cup (IF e.e = "ctor" THEN {} ELSE
                                           (IF ~Alive(st, e.s) THEN {"made-from-a-dead-object"}
                                            ELSE IF st.objs[e.s].v # e.v THEN {"value-lost"} ELSE {})
                                           \cup (IF e.e = "move" /\ e.s \in keep THEN {"moved-from-a-kept-object"} ELSE {}))]
      [] e.e = "dtor" ->
           IF ~Alive(st, e.o) THEN Bad(st, "destroyed-when-not-alive")
           ELSE LET s1 == [st EXCEPT !.objs[e.o].a = FALSE] IN IF e.o \in keep THEN Bad(s1, "destroyed-a-kept-object") ELSE s1
      [] e.e = "set" -> IF Alive(st, e.o) THEN [st EXCEPT !.objs[e.o].v = e.v] ELSE Bad(st, "changed-a-dead-object")
      [] e.e = "call" ->
           LET k == st.n + 1
           IN  IF k > Len(calls) THEN Bad(st, "unexpected-call")
               ELSE LET s1 == [st EXCEPT !.n = k]
                    IN  IF calls[k] # [f |-> e.f, a |-> ValOf(st, e.a), b |-> ValOf(st, e.b)] THEN Bad(s1, "call-saw-something-else") ELSE s1
      [] e.e = "alloc" -> [st EXCEPT !.blk = Append(@, TRUE)]
      [] e.e = "free" -> IF e.o \in DOMAIN st.blk /\ st.blk[e.o] THEN [st EXCEPT !.blk[e.o] = FALSE] ELSE Bad(st, "freed-what-was-not-allocated")

\* One operation of a recorded history: before, own: slots and the objects in them; r: what was recorded.
Through(st, sl, own, o, r) ==
    LET keep == {own[i] : i \in Sl \ EatenBy(o)} \ {0}
        calls == CallsOf(sl, o)
        s0 == [st EXCEPT !.n = 0, !.born = 0]
        s1 == FoldLeft(LAMBDA s, e : Event(s, e, keep, calls), s0, r.ev)
        want == After(sl, o)
        got == [i \in Sl |-> [k |-> r.slots[i].k, v |-> r.slots[i].v]]
        now == [i \in Sl |-> r.slots[i].o]
        living == {i \in DOMAIN s1.objs : s1.objs[i].a}
        blocks == Cardinality({i \in DOMAIN s1.blk : s1.blk[i]})
    IN  [s1 EXCEPT !.bad = @ \cup (IF r.ok = Panics(sl, o) THEN {IF r.ok THEN "did-not-panic" ELSE "panicked"} ELSE {})
                              \cup (IF r.ok /\ s1.n # Len(calls) THEN {"not-called"} ELSE {})
                              \cup (IF got # want THEN {"slots-differ"} ELSE {})
                              \cup (IF \E i \in Sl : From(o, i) # 0 /\ i \notin (EatenBy(o) \ {o.t}) /\ now[i] # own[From(o, i)] /\ want[i].k \notin {"none", "null"}
                                    THEN {"object-replaced"} ELSE {})
                              \cup (IF living \ {now[i] : i \in Sl} # {} THEN {"leaked"} ELSE {})
                              \cup (IF \E i \in Sl : Held(want, i) /\ ~Alive(s1, now[i]) THEN {"holds-a-dead-object"} ELSE {})
                              \cup (IF \E i, j \in Sl : i # j /\ now[i] # 0 /\ now[i] = now[j] THEN {"held-twice"} ELSE {})
                              \cup (IF o.n \in {"new", "copy", "mov"} /\ s1.born # 1 THEN {"not-made-in-place"} ELSE {})]

-----------------------------------------------------------------------------
Args(ms) == {[m |-> m, s |-> s, v |-> v] : m \in ms, s \in Sl, v \in Vals}
AnOp(n) ==
    LET o == Op(n)
    IN  CASE n \in {"new", "make"} -> {[o EXCEPT !.s = s, !.k = k, !.v = v] : s \in Sl, k \in Kinds, v \in Vals}
          [] n = "makeup" -> {[o EXCEPT !.s = s, !.v = v] : s \in Sl, v \in Vals}
          [] n \in {"null", "drop", "conv", "raw", "refs", "passup"} -> {[o EXCEPT !.s = s] : s \in Sl}
          [] n = "set" -> {[o EXCEPT !.s = s, !.v = v] : s \in Sl, v \in Vals}
          [] n \in {"copy", "mov"} -> {[o EXCEPT !.s = s, !.t = t, !.k = k] : s \in Sl, t \in Sl, k \in Kinds}
          [] n \in {"shift", "borrow"} -> {[o EXCEPT !.s = s, !.t = t] : s \in Sl, t \in Sl}
          [] n \in {"stack", "stackmake"} -> {[o EXCEPT !.v = v] : v \in Vals}
          [] n \in {"rtake", "rsteal"} -> {[o EXCEPT !.a = a] : a \in Args(RModes)}
          [] n = "echo" -> {[o EXCEPT !.a = a, !.t = t, !.k = k] : a \in Args(Modes), t \in Sl, k \in Kinds}
          [] n \in One \ {"echo"} -> {[o EXCEPT !.a = a] : a \in Args(Modes)}
          [] n = "take2" -> {[o EXCEPT !.a = a, !.b = b] : a \in Args(Modes), b \in Args(Modes)}
          [] n = "vr" -> {[o EXCEPT !.a = a, !.b = b] : a \in Args(Modes), b \in Args(RModes)}
          [] n = "rv" -> {[o EXCEPT !.a = a, !.b = b] : a \in Args(RModes), b \in Args(Modes)}

\* Slots are filled one after the other, then the history proper begins.
Fill(i, k) == IF k = "null" THEN <<[Op("null") EXCEPT !.s = i]>>
              ELSE IF k = "none" THEN <<>> ELSE <<[Op("new") EXCEPT !.s = i, !.k = k, !.v = 10 + i]>>
RECURSIVE FillAll(_, _)
FillAll(ks, i) == IF i > NSlots THEN <<>> ELSE Fill(i, ks[i]) \o FillAll(ks, i + 1)
Init == /\ cls \in Classes
        /\ \E ks \in [Sl -> StartKinds] :
             /\ slots = [i \in Sl |-> IF ks[i] \in {"none", "null"} THEN [k |-> ks[i], v |-> 0] ELSE [k |-> ks[i], v |-> 10 + i]]
             /\ hist = FillAll(ks, 1)
\* (bounded by the number of operations, counting those that filled the slots)
Do(o) == Valid(slots, cls, o) /\ slots' = After(slots, o) /\ hist' = Append(hist, o) /\ UNCHANGED cls
Next == Len(hist) < MaxOps + NSlots /\ \E n \in OpNames : \E o \in AnOp(n) : Do(o)
Spec == Init /\ [][Next]_vars

(* One operation from every start.                                            *)
Done == IF hist = <<>> THEN FALSE ELSE hist[Len(hist)].n = "end"
OneNext == /\ ~Done
           /\ \E n \in OpNames : \E o \in AnOp(n) : Valid(slots, cls, o) /\ slots' = After(slots, o) /\ hist' = Append(hist, o) \o <<Op("end")>> /\ UNCHANGED cls
OneSpec == Init /\ [][OneNext]_vars

(* Random long histories.                                                     *)
RArg(ms) == [m |-> RandomElement(ms), s |-> RandomElement(Sl), v |-> RandomElement(Vals)]
ROp(n) == [n |-> n, s |-> RandomElement(Sl), t |-> RandomElement(Sl), k |-> RandomElement(Kinds), v |-> RandomElement(Vals),
           a |-> IF n \notin Passing THEN NoArg ELSE IF n \in {"rtake", "rsteal", "rv"} THEN RArg(RModes) ELSE RArg(Modes),
           b |-> IF n \notin Calls2 THEN NoArg ELSE IF n = "vr" THEN RArg(RModes) ELSE RArg(Modes)]
SimInit == cls \in Classes /\ slots = [i \in Sl |-> Empty] /\ hist = <<>>
SimNext == /\ Len(hist) < MaxOps
           /\ \E n \in {RandomElement(OpNames)} : \E o1 \in {TLCEval(ROp(n))} :
                LET o == [o1 EXCEPT !.s = IF n \in {"stack", "stackmake"} THEN 1 ELSE @,
                                    !.a.s = IF o1.a.m \in Fresh THEN 1 ELSE @, !.b.s = IF o1.b.m \in Fresh THEN 1 ELSE @]
                IN  IF Valid(slots, cls, o) THEN Do(o) ELSE UNCHANGED vars
SimSpec == SimInit /\ [][SimNext]_vars

-----------------------------------------------------------------------------
(* Properties of the model.                                                   *)
\* Empty and null slots hold nothing, others a value which somebody put there.
Sane == \A i \in Sl : slots[i].k \in {"none", "null"} <=> slots[i].v = 0
\* What is passed by reference or copied stays; what is consumed goes.
Kept == Done \/ \A n \in OpNames \cap Passing : \A o \in AnOp(n) : Valid(slots, cls, o) =>
          \A i \in Sl : /\ i \in EatenBy(o) => (After(slots, o)[i].k = "none" \/ (o.n = "echo" /\ o.t = i))
                        /\ i \notin EatenBy(o) /\ ~(o.n = "echo" /\ o.t = i) => After(slots, o)[i] = slots[i]
EmitOne == IF ~Done THEN TRUE ELSE PrintT("CASE:" \o ToJson([c |-> cls, n |-> NSlots, ops |-> SubSeq(hist, 1, Len(hist) - 1)]))
EmitAll == Len(hist) < MaxOps + NSlots \/ PrintT("CASE:" \o ToJson([c |-> cls, n |-> NSlots, ops |-> hist]))
EmitSim == Len(hist) < MaxOps \/ PrintT("CASE:" \o ToJson([c |-> cls, n |-> NSlots, ops |-> hist]))
=============================================================================
