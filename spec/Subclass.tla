------------------------------ MODULE Subclass ------------------------------
(* Rust objects which are subclasses of a C++ class.  Each object has a Rust   *)
(* half and a C++ half (the peer).  The specification says who keeps which     *)
(* half alive in the three ownership modes, what calling virtual functions     *)
(* does (frames nest, since every method may do anything, including giving up  *)
(* its own object), and when a call must stop the program rather than alias    *)
(* the Rust half.  Properties P11 and P12.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS NSlots, NStore,   \* what Rust and what C++ can hold
          MaxObjs, MaxOps, MaxDepth,
          Modes,            \* "rust", "cpp", "self"
          OpNames, Kinds    \* kinds of method: 1 const, 2 mutable, 3 pure const, 4 pure mutable (overridden in Rust); 5 const, 6 mutable (not overridden)

VARIABLES objs,    \* sequence of [mode, strong: the peer owns the Rust half, r: Rust half alive, p: peer alive]
          slots,   \* [k: "none", "R" (Rc), "U" (unique pointer to the peer), "S" (unique pointer to the superclass); o]
          store,   \* C++ unique pointers
          frames,  \* running methods: [o, k, held: a guard which the caller holds besides, cpp: entered from C++]
          dead,    \* why the program has stopped
          hist
vars == <<objs, slots, store, frames, dead, hist>>

Sl == 1..NSlots
St == 1..NStore
Mut(k) == k \in {2, 4, 6}
Plain(k) == k >= 5
State == [objs |-> objs, slots |-> slots, store |-> store, frames |-> frames, dead |-> dead]

-----------------------------------------------------------------------------
(* Life and death.                                                            *)
Referred(st, o) == \/ \E s \in Sl : st.slots[s].k = "R" /\ st.slots[s].o = o
                   \/ \E f \in 1..Len(st.frames) : st.frames[f].o = o
CppOwned(st, o) == \/ \E s \in Sl : st.slots[s].k \in {"U", "S"} /\ st.slots[s].o = o
                   \/ \E c \in St : st.store[c] = o
\* What is alive keeps other things alive; what nothing keeps alive goes.
Step1(st) == [st EXCEPT !.objs = [o \in DOMAIN st.objs |->
    LET x == st.objs[o]
    IN  [x EXCEPT !.r = x.r /\ (Referred(st, o) \/ (x.p /\ x.strong)),
                  !.p = x.p /\ (IF x.mode = "cpp" THEN CppOwned(st, o) ELSE x.r)]]]
RECURSIVE Settle(_)
Settle(st) == LET n == Step1(st) IN IF n = st THEN st ELSE Settle(n)

-----------------------------------------------------------------------------
(* Borrowing.  Every running method has its object borrowed, and so has a     *)
(* caller which got at the object through a guard.                            *)
Shared(st, o) == \E f \in 1..Len(st.frames) : st.frames[f].o = o /\ (~Mut(st.frames[f].k) \/ st.frames[f].held = "shared")
Exclusive(st, o) == \E f \in 1..Len(st.frames) : st.frames[f].o = o /\ (Mut(st.frames[f].k) \/ st.frames[f].held = "exclusive")
CanBorrow(st, o, k) == ~Exclusive(st, o) /\ (Mut(k) => ~Shared(st, o))
Top(st) == st.frames[Len(st.frames)]

-----------------------------------------------------------------------------
Op(n) == [n |-> n, s |-> 1, t |-> 1, c |-> 1, m |-> "-", k |-> 1, x |-> 1]
Obj(st, s) == st.slots[s].o
Valid(st, o) ==
    /\ st.dead = ""
    /\ CASE o.n = "new" -> st.slots[o.s].k = "none" /\ Len(st.objs) < MaxObjs
         [] o.n = "clone" -> st.slots[o.s].k = "R" /\ st.slots[o.t].k = "none"
         [] o.n = "drop" -> st.slots[o.s].k # "none"
         [] o.n = "conv" -> st.slots[o.s].k = "U"
         [] o.n = "give" -> st.slots[o.s].k \in {"U", "S"} /\ st.store[o.c] = 0
         [] o.n = "fetch" -> st.slots[o.s].k = "none" /\ st.store[o.c] # 0
         [] o.n = "cppdel" -> st.store[o.c] # 0
         [] o.n = "del" -> st.slots[o.s].k = "R" /\ CanBorrow(st, Obj(st, o.s), 1)
         \* (a method of an object whose peer is gone must not use it)
         [] o.n \in {"delme", "super"} -> Len(st.frames) > 0 /\ st.objs[Top(st).o].p
         [] o.n = "leave" -> Len(st.frames) > 0
         [] o.n = "call" -> o.s <= Len(st.objs) /\ st.objs[o.s].p /\ (Plain(o.k) \/ Len(st.frames) < MaxDepth)
         [] o.n \in {"rcall", "viaref"} -> /\ st.slots[o.s].k = "R" /\ st.objs[Obj(st, o.s)].p
                                           /\ CanBorrow(st, Obj(st, o.s), o.k) /\ (Plain(o.k) \/ Len(st.frames) < MaxDepth)

None == [k |-> "none", o |-> 0]
Who(st, o) == IF o.n = "call" THEN o.s ELSE Obj(st, o.s)
\* Why a call stops the program, if it does.
Fatal(st, o) ==
    CASE o.n = "call" -> IF ~st.objs[o.s].r THEN "destroyed" ELSE IF ~CanBorrow(st, o.s, o.k) THEN "reentrant" ELSE ""
      [] o.n = "viaref" -> IF Mut(o.k) THEN "reentrant" ELSE ""
      [] OTHER -> ""
After(st, o) ==
    CASE o.n = "new" -> [st EXCEPT !.objs = Append(@, [mode |-> o.m, strong |-> o.m # "rust", r |-> TRUE, p |-> TRUE]),
                                       !.slots[o.s] = [k |-> IF o.m = "cpp" THEN "U" ELSE "R", o |-> Len(st.objs) + 1]]
          [] o.n = "clone" -> Settle([st EXCEPT !.slots[o.t] = st.slots[o.s]])
          [] o.n = "drop" -> Settle([st EXCEPT !.slots[o.s] = None])
          [] o.n = "conv" -> [st EXCEPT !.slots[o.s].k = "S"]
          [] o.n = "give" -> [st EXCEPT !.store[o.c] = Obj(st, o.s), !.slots[o.s] = None]
          [] o.n = "fetch" -> [st EXCEPT !.slots[o.s] = [k |-> "S", o |-> st.store[o.c]], !.store[o.c] = 0]
          [] o.n = "cppdel" -> Settle([st EXCEPT !.store[o.c] = 0])
          [] o.n = "del" -> Settle([st EXCEPT !.objs[Obj(st, o.s)].strong = FALSE])
          [] o.n = "delme" -> Settle([st EXCEPT !.objs[Top(st).o].strong = FALSE])
          [] o.n = "leave" -> Settle([st EXCEPT !.frames = SubSeq(@, 1, Len(@) - 1)])
          [] o.n \in {"call", "rcall", "viaref"} ->
               IF Fatal(st, o) # "" THEN [st EXCEPT !.dead = Fatal(st, o)]
               ELSE IF Plain(o.k) THEN st
               ELSE [st EXCEPT !.frames = Append(@, [o |-> Who(st, o), k |-> o.k, held |-> IF o.n = "viaref" THEN "shared" ELSE ""])]
          [] OTHER -> st

\* What Rust and C++ report to have happened, besides things being destroyed.
RsName == <<"rs-cc", "rs-mm", "rs-pc", "rs-pm", "base-nc", "base-nm">>
Happens(st, o) ==
    CASE o.n = "new" -> <<[e |-> "cnew", o |-> Len(st.objs) + 1, x |-> 0]>>
      [] o.n \in {"call", "rcall", "viaref"} -> <<[e |-> RsName[o.k], o |-> Who(st, o), x |-> o.x]>>
      [] o.n = "super" -> <<[e |-> IF Mut(Top(st).k) THEN "base-mm" ELSE "base-cc", o |-> Top(st).o, x |-> o.x]>>
      [] OTHER -> <<>>

-----------------------------------------------------------------------------
AnOp(n, x) ==
    LET o == [Op(n) EXCEPT !.x = x]
    IN  CASE n = "new" -> {[o EXCEPT !.s = s, !.m = m] : s \in Sl, m \in Modes}
          [] n = "clone" -> {[o EXCEPT !.s = s, !.t = t] : s \in Sl, t \in Sl}
          [] n \in {"drop", "conv", "del"} -> {[o EXCEPT !.s = s] : s \in Sl}
          [] n \in {"give", "fetch"} -> {[o EXCEPT !.s = s, !.c = c] : s \in Sl, c \in St}
          [] n = "cppdel" -> {[o EXCEPT !.c = c] : c \in St}
          [] n \in {"delme", "super", "leave"} -> {o}
          [] n = "call" -> {[o EXCEPT !.s = s, !.k = k] : s \in 1..MaxObjs, k \in Kinds}
          [] n \in {"rcall", "viaref"} -> {[o EXCEPT !.s = s, !.k = k] : s \in Sl, k \in Kinds}

Become(st) == objs' = st.objs /\ slots' = st.slots /\ store' = st.store /\ frames' = st.frames /\ dead' = st.dead
Blank == [objs |-> <<>>, slots |-> [s \in Sl |-> None], store |-> [c \in St |-> 0], frames |-> <<>>, dead |-> ""]
Is(st) == objs = st.objs /\ slots = st.slots /\ store = st.store /\ frames = st.frames /\ dead = st.dead
Do(o) == Valid(State, o) /\ Become(After(State, o)) /\ hist' = Append(hist, o)
\* Histories start with an object of some mode, and sometimes with two.
First(m) == [Op("new") EXCEPT !.m = m]
Init == \/ \E m \in Modes : Is(After(Blank, First(m))) /\ hist = <<First(m)>>
Next == Len(hist) < MaxOps /\ \E n \in OpNames : \E o \in AnOp(n, Len(hist)) : Do(o)
Spec == Init /\ [][Next]_vars

SimInit == Is(Blank) /\ hist = <<>>
SimNext == /\ Len(hist) < MaxOps /\ dead = ""
           /\ \E n \in {RandomElement(OpNames)} : \E o \in {RandomElement(AnOp(n, Len(hist)))} :
                \* (fatal calls only now and then: they end the history)
                IF Valid(State, o) /\ (Fatal(State, o) = "" \/ RandomElement(1..12) = 1) THEN Do(o) ELSE UNCHANGED vars
SimSpec == SimInit /\ [][SimNext]_vars

-----------------------------------------------------------------------------
(* Properties of the model.                                                   *)
Settled == Settle(State) = State
\* Neither half of a Rust-owned or self-owned object outlives the other.
Together == \A o \in DOMAIN objs : objs[o].mode # "cpp" => objs[o].r = objs[o].p
\* A C++-owned object is whole while its owner keeps it, unless its Rust half was told to go.
CppWhole == \A o \in DOMAIN objs : objs[o].mode = "cpp" /\ objs[o].p /\ objs[o].strong => objs[o].r
\* Whatever a slot, a frame or C++ refers to is alive.
NoDangling == /\ \A s \in Sl : /\ slots[s].k = "R" => objs[slots[s].o].r
                               /\ slots[s].k \in {"U", "S"} => objs[slots[s].o].p
              /\ \A c \in St : store[c] # 0 => objs[store[c]].p
              /\ \A f \in 1..Len(frames) : objs[frames[f].o].r
\* Nothing but a self-owned object stays when nobody refers to it.
NoLeaks == \A o \in DOMAIN objs : (objs[o].r \/ objs[o].p) => (Referred(State, o) \/ CppOwned(State, o) \/ (objs[o].mode = "self" /\ objs[o].strong))
\* A mutable method has its object to itself.
Alone == \A f, g \in 1..Len(frames) : f # g /\ frames[f].o = frames[g].o => ~Mut(frames[f].k)

Line == [slots |-> NSlots, store |-> NStore, ops |-> hist, dead |-> dead]
Emit == IF Len(hist) < MaxOps /\ dead = "" THEN TRUE ELSE PrintT("CASE:" \o ToJson(Line))

-----------------------------------------------------------------------------
(* Validation of a recorded history.                                          *)
Drops(ev) == SelectSeq(ev, LAMBDA e : e.e \in {"rdrop", "cdrop"})
Others(ev) == SelectSeq(ev, LAMBDA e : e.e \notin {"rdrop", "cdrop"})
Gone(st, n) == {<<"rdrop", o>> : o \in {q \in DOMAIN st.objs : st.objs[q].r /\ ~n.objs[q].r}}
               \cup {<<"cdrop", o>> : o \in {q \in DOMAIN st.objs : st.objs[q].p /\ ~n.objs[q].p}}
DropsAre(ev, want) == LET d == Drops(ev) IN Len(d) = Cardinality(want) /\ {<<d[i].e, d[i].o>> : i \in 1..Len(d)} = want
SlotsAre(n, r) ==
    /\ \A s \in Sl : LET w == n.slots[s] IN
         /\ r.slots[s].k = w.k
         /\ \/ w.k = "none"
            \/ w.k = "R" /\ Exclusive(n, w.o) /\ r.slots[s].o = -1
            \/ r.slots[s].o = w.o /\ r.slots[s].p = IF n.objs[w.o].p THEN w.o ELSE 0
    /\ \A c \in St : r.store[c] = n.store[c]
    /\ IF n.frames = <<>> THEN r.me = 0 ELSE r.me = Top(n).o /\ r.peer = IF n.objs[Top(n).o].p THEN Top(n).o ELSE 0
Wrong(st, o, r) ==
    LET n == After(st, o)
    IN  (IF r.ok THEN {} ELSE {"wrong-result"})
        \cup (IF Others(r.ev) = Happens(st, o) THEN {} ELSE {"wrong-function"})
        \cup (IF DropsAre(r.ev, Gone(st, n)) THEN {} ELSE {"wrong-destruction"})
        \cup (IF SlotsAre(n, r) THEN {} ELSE {"wrong-object"})
\* At the end all methods return and everything is let go.
EndState(st) == Settle([st EXCEPT !.frames = <<>>, !.slots = [s \in Sl |-> None], !.store = [c \in St |-> 0]])
WrongEnd(st, r) == (IF r.ok THEN {} ELSE {"wrong-result"}) \cup (IF DropsAre(r.ev, Gone(st, EndState(st))) /\ Others(r.ev) = <<>> THEN {} ELSE {"wrong-destruction"})
=============================================================================
