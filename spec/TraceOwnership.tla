--------------------------- MODULE TraceOwnership ---------------------------
(* Who owns each element.  Independent of the kind of container: at any moment *)
(* an element is inside a container once, or with the caller, or dropped.      *)
(* Events carry the tokens created (on), cloned into being (oc), dropped (od), *)
(* handed back to the caller (or), the tokens found in the containers          *)
(* afterwards (ol, when they can be observed) and misuse seen by the ledger    *)
(* itself (oe: dropping or reading something that is not a live element).      *)
EXTENDS Integers, FiniteSets, TraceBase
VARIABLE live           \* tokens the containers and their consuming iterators own
ovars == <<live, tid, l>>

SetOf(q) == {q[i] : i \in 1..Len(q)}
Distinct(q) == Cardinality(SetOf(q)) = Len(q)
Born(e) == SetOf(e.on) \cup SetOf(e.oc)
Left(e) == SetOf(e.od) \cup SetOf(e.or)
After(e) == (live \cup Born(e)) \ Left(e)

TInit == live = {} /\ TraceStart
\* one operation: only elements that are owned or just made can leave, each once
Op == /\ "on" \in DOMAIN E
      /\ Distinct(E.od \o E.or)
      /\ Left(E) \subseteq live \cup Born(E)
      /\ live' = After(E)
TNext == \/ More /\ Op /\ Adv
         \/ Done /\ UNCHANGED ovars
TSpec == TInit /\ [][TNext]_ovars

Judge(P) == Started => P
\* the containers hold exactly the elements that entered and have not left, each once
Own == Judge(Has("ol") => Distinct(O.ol) /\ SetOf(O.ol) = live)
OwnErrs == Judge(O.oe = <<>>)
\* nothing is left when everything is gone
AllGone == Judge(O.op = "fin" => live = {})
=============================================================================
