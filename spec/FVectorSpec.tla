---------------------------- MODULE FVectorSpec -----------------------------
(* A fixed vector: a vector that starts on N inline slots.  It spills into     *)
(* allocated storage when its capacity has to change, and comes back when it   *)
(* is cleared.  It can be moved to a new place at any time.                    *)
EXTENDS VectorSpec
VARIABLES over,     \* the elements are not in the inline slots
          size      \* N
fvars == <<vvars, over, size>>

FInit(k) == /\ s = <<>> /\ cap = k /\ w = None /\ it = None /\ over = FALSE /\ size = k
            /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>, p |-> 0]
\* an operation of the vector underneath; a new capacity means new storage
Vec(A) == A /\ over' = (over \/ cap' # cap) /\ UNCHANGED size
Spare(op) == s' = <<>> /\ cap' = size /\ over' = FALSE /\ UNCHANGED size /\ Did(op, <<>>, <<>>, 0)
FNew(op) == Spare(op) /\ Keep
\* built by C++: inline, or with room for c > N elements elsewhere
FAdopt(c, q) == /\ s' = q /\ cap' = Max(c, size) /\ over' = (c > size) /\ UNCHANGED size
                /\ Keep /\ Did("adopt", <<c>> \o q, <<>>, 0)
FClear == Spare("clear") /\ Keep
FFin == s' = <<>> /\ cap' = 0 /\ over' = FALSE /\ w' = None /\ it' = None /\ UNCHANGED size /\ Did("fin", <<>>, <<>>, 0)
\* the elements, the capacity and where the elements are do not depend on the place
Move(op) == UNCHANGED <<s, cap, w, it, over, size>> /\ Did(op, <<>>, <<>>, 0)

(* --- properties of the design --- *)
InlineIsN == ~over => cap = size \/ last.op = "fin"
NeverBelowN == cap >= size \/ last.op = "fin"
SpillsOnlyForRoom == [][ (over' /\ ~over) => cap' > size ]_fvars
=============================================================================
