----------------------------- MODULE TraceDeque -----------------------------
(* Conformance of recorded deque and queue executions with DequeSpec.          *)
EXTENDS DequeSpec, TraceBase
tvars == <<dvars, tid, l>>

TInit == DInit /\ TraceStart
a == E.a
Act ==
    \/ Is("new") /\ New("new")
    \/ Is("default") /\ New("default")
    \/ Is("newin") /\ New("newin")
    \/ Is("drop") /\ New("drop")
    \/ Is("fromiter") /\ FromIter(a[1], Tail(a))
    \/ Is("adopt") /\ Adopt(a, DropFirst(a, 3))
    \/ Is("pushb") /\ PushBack("pushb", a[1])
    \/ Is("push") /\ PushBack("push", a[1])
    \/ Is("pushf") /\ PushFront(a[1])
    \/ Is("popb") /\ PopBack
    \/ Is("popf") /\ PopFront("popf")
    \/ Is("pop") /\ PopFront("pop")
    \/ Is("remove") /\ Remove(a[1])
    \/ Is("pushbn") /\ PushBackN("pushbn", a[1], a[2])
    \/ Is("pushn") /\ PushBackN("pushn", a[1], a[2])
    \/ Is("pushfn") /\ PushFrontN(a[1], a[2])
    \/ Is("popbn") /\ PopBackN(a[1])
    \/ Is("popfn") /\ PopFrontN("popfn", a[1])
    \/ Is("popn") /\ PopFrontN("popn", a[1])
    \/ Is("remn") /\ RemN(a[1], a[2])
    \/ Is("setf") /\ SetFront(a[1])
    \/ Is("setb") /\ SetBack(a[1])
    \/ Is("set") /\ Set(a[1], a[2])
    \/ Is("itnew") /\ ItNew(a[1])
    \/ Is("inext") /\ INext
    \/ Is("inback") /\ INextBack
    \/ Is("inextset") /\ INextSet(a[1])
    \/ Is("inbackset") /\ INextBackSet(a[1])
    \/ Is("inth") /\ INth(a[1])
    \/ Is("inthb") /\ INthBack(a[1])
    \/ Is("icount") /\ ICount
    \/ Is("ilast") /\ ILast
    \/ Is("icompat") /\ ICompat(a[1])
    \/ Is("irest") /\ IRest
    \/ Is("irestb") /\ IRestBack
    \/ Is("idrop") /\ IDrop
    \/ Is("inner") /\ Inner
    \/ Is("wpopf") /\ WPopF
    \/ Is("wpopb") /\ WPopB
    \/ Is("dropw") /\ DropW
    \/ Is("fin") /\ Fin
TNext == \/ More /\ Act /\ Adv
         \/ Done /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars

Judge(P) == Started => P
Result == Judge(O.r = last.r /\ O.p = last.p)
Contents == Judge(Has("c") => O.c = s)
Backward == Judge(Has("b") => O.b = Rev(s))
Lengths == Judge(Has("n") => O.n = Len(s) /\ O.e = B(s = <<>>))
FrontElem == Judge(Has("fr") => O.fr = Head1(s))
BackElem == Judge(Has("bk") => O.bk = Last1(s))
Printed == Judge(Has("dbg") => O.dbg = s)
InnerContents == Judge(Has("w") => w # None /\ O.w = w[1])
IterHint == Judge((Has("ih") /\ O.ih # <<>>) => /\ it # None
                                /\ O.ih[1] <= Len(Left) /\ (O.ih[2] = -1 \/ O.ih[2] >= Len(Left)))

(* --- the image, read by C++ EASTL's rules --- *)
BlockLen == LET es == Cfg.es IN
    IF es <= 4 THEN 64 ELSE IF es <= 8 THEN 32 ELSE IF es <= 16 THEN 16 ELSE IF es <= 32 THEN 8 ELSE 4
Img == O.img   \* pointer-array slots allocated, its offset in its block, recorded size; slot, offset, span of begin; of end
ImgSlots == Judge(Has("img") => /\ Img[2] = 0 /\ Img[3] >= 1 /\ Img[3] <= Img[1]
                                /\ 0 <= Img[4] /\ Img[4] <= Img[7] /\ Img[7] < Img[3])
ImgPlaces == Judge(Has("img") => /\ Img[6] = BlockLen /\ Img[9] = BlockLen
                                 /\ 0 <= Img[5] /\ Img[5] < BlockLen /\ 0 <= Img[8] /\ Img[8] < BlockLen)
ImgBlocks == Judge(Has("img") => /\ O.agr = 1
                                 /\ Len(O.blk) = Img[7] - Img[4] + 1
                                 /\ \A i \in 1..Len(O.blk) : O.blk[i][1] > 0 /\ O.blk[i][2] = BlockLen /\ O.blk[i][3] = 0
                                 /\ Cardinality({O.blk[i][1] : i \in 1..Len(O.blk)}) = Len(O.blk))
ImgCount == Judge(Has("img") => (Img[7] - Img[4]) * BlockLen + Img[8] - Img[5] = Len(s))
ImgWalk == Judge(Has("wlk") => O.wlk = s)
=============================================================================
