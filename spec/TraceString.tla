---------------------------- MODULE TraceString -----------------------------
(* Conformance of recorded string executions with StringSpec.                  *)
EXTENDS StringSpec, TraceBase
tvars == <<svars, tid, l>>
TInit == TraceStart /\ SInit
a == E.a
Act ==
    \/ \E op \in {"new", "default", "newin", "drop"} : Is(op) /\ New(op)
    \/ Is("withcap") /\ WithCapacity(a[1])
    \/ \E op \in {"fromstr", "fromin", "parse"} : Is(op) /\ Become(op, a, a)
    \/ Is("push") /\ Push(a[1])
    \/ Is("pushn") /\ PushN(a[1], a[2])
    \/ Is("popn") /\ PopN(a[1])
    \/ Is("pop") /\ Pop
    \/ Is("insert") /\ Insert(a[1], a[2])
    \/ Is("remove") /\ Remove(a[1])
    \/ Is("assign") /\ Assign(a)
    \/ Is("assignw") /\ AssignW(a)
    \/ Is("reserve") /\ Reserve(a[1])
    \/ Is("upper") /\ UpperAll
    \/ Is("clone") /\ Clone
    \/ Is("swapw") /\ SwapW
    \/ Is("dropw") /\ DropW
    \/ Is("fin") /\ Fin
TNext == \/ More /\ Act /\ Adv
         \/ Done /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars

Judge(P) == Started => P
Result == Judge(O.r = last.r /\ O.p = last.p)
Contents == Judge(Has("b") => O.b = Bytes(s) /\ O.ut = 1)
Characters == Judge(Has("b") => Has("cp") /\ O.cp = s)
Lengths == Judge(Has("n") => O.n = Size(s) /\ O.e = B(s = <<>>))
Room == Judge(Has("k") => O.k >= Size(s) /\ O.f = B(O.k = Size(s)) /\ O.k >= room)
Printed == Judge(Has("dsp") => O.dsp = Bytes(s))
Quoted == Judge(Has("dbg") => O.dbg = <<34>> \o Bytes(s) \o <<34>>)
Equality == Judge(Has("eq") => O.eq = <<1, 1, 0, 1, 0, 0>>)
CloneText == Judge(/\ Has("wb") => w # None /\ O.wb = Bytes(w[1])
                   /\ Has("we") => O.we = B(s = w[1]))
\* z: owns storage, the byte past the text is inside it, its value
Terminated == Judge(Has("z") => IF O.z[1] = 1 THEN O.z[2] = 1 /\ O.z[3] = 0 ELSE s = <<>>)
CloneTerminated == Judge(Has("wz") => IF O.wz[1] = 1 THEN O.wz[2] = 1 /\ O.wz[3] = 0 ELSE w[1] = <<>>)
MemErrs == Judge(Has("me") => O.me = <<>>)
=============================================================================
