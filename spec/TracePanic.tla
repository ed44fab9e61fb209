---------------------------- MODULE TracePanic -----------------------------
(* Who owns each element when code supplied by the user may panic in the       *)
(* middle of any operation.  As TraceOwnership, except that an interrupted     *)
(* operation may lose elements (never dropped, perhaps never seen again), and  *)
(* only those it had taken over: what it had just created, and, when it was    *)
(* the drop of an element that panicked, what it was giving up.                *)
(* E.x says which user code panicked: 1 clone, 2 drop, 3 equality, 4 ordering, *)
(* 5 hashing, 6 a closure, 7 an iterator; 0 nothing did.                       *)
EXTENDS Integers, FiniteSets, TraceBase
VARIABLES live,         \* tokens of elements that entered, and neither were dropped nor left
          lost,         \* of those, the ones not seen in any container any more
          kept          \* of those found before the event just explained, the ones still to be found
ovars == <<live, lost, kept, tid, l>>

SetOf(q) == {q[i] : i \in 1..Len(q)}
Distinct(q) == Cardinality(SetOf(q)) = Len(q)
Born(e) == SetOf(e.on) \cup SetOf(e.oc)
Left(e) == SetOf(e.od) \cup SetOf(e.or)
After(e) == (live \cup Born(e)) \ Left(e)
\* operations that give up what a container (or an iterator) held
GivesUp == {"clear", "assign", "new", "default", "newin", "withcap", "drop", "dropw", "idrop", "idrop2", "inner", "intoiter",
            "itnew", "clone", "fromslice", "frommut", "fromin", "fromarr", "fromarrref", "fromiter", "fin"}

TInit == live = {} /\ lost = {} /\ kept = {} /\ TraceStart
Op == /\ "on" \in DOMAIN E
      /\ Distinct(E.od \o E.or)
      /\ Left(E) \subseteq live \cup Born(E)
      /\ live' = After(E)
      /\ kept' = (live \ lost) \cap After(E)
      /\ lost' = IF E.x > 0 /\ "ol" \in DOMAIN E THEN live' \ SetOf(E.ol) ELSE lost \cap live'
TNext == \/ More /\ Op /\ Adv
         \/ Done /\ UNCHANGED ovars
TSpec == TInit /\ [][TNext]_ovars

Judge(P) == Started => P
\* what the containers hold is alive, each once, and only what was lost is missing
Own == Judge(Has("ol") => /\ Distinct(O.ol)
                          /\ SetOf(O.ol) \subseteq live
                          /\ live \ lost \subseteq SetOf(O.ol))
OwnErrs == Judge(O.oe = <<>>)
\* an interrupted operation is one that panicked
Reported == Judge(O.x > 0 => O.p = 1)
\* what it had not taken over is still there; an element on its way to the caller may be lost when another one's drop
\* panics before the operation returns
Kept == Judge((O.x > 0 /\ Has("ol")) =>
              IF O.x # 2 THEN kept \subseteq SetOf(O.ol)
              ELSE O.op \in GivesUp \/ Cardinality(kept \ SetOf(O.ol)) <= 1)
AllGone == Judge(O.op = "fin" => live \subseteq lost)
=============================================================================
