------------------------------ MODULE Elements ------------------------------
(* The elements of a document by themselves (src/interpretation/svg.rs): a     *)
(* circle, a path, decorations, an empty group, an empty document, and the     *)
(* unit transformations.  A program makes an element and changes its           *)
(* decorations; its text, read as XML, says exactly what it is made of.        *)
(*                                                                             *)
(* Texts are sequences of characters, numbers are opaque names: what is asked  *)
(* is that the number read back is the number that was put in.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Texts, Numbers, Radii, Points, MaxOps
VARIABLES el, log
vars == <<el, log>>
view == <<el, Len(log)>>

Plain == [fill |-> <<>>, stroke |-> <<>>, width |-> <<>>]      \* nothing is set
Nothing == [e |-> "decorations", cx |-> "zero", cy |-> "zero", r |-> "zero", deco |-> Plain, ps |-> <<>>]
\* A circle has a black outline if nothing else is said.
ACircle(x, y, r) == [Nothing EXCEPT !.e = "circle", !.cx = x, !.cy = y, !.r = r, !.deco.stroke = <<<<"b", "l", "a", "c", "k">>>>]
APath(ps) == [Nothing EXCEPT !.e = "path", !.ps = ps]
Decorated(x) == x.e \in {"circle", "decorations"}

Init == el = Nothing /\ log = <<>>
Did(o, x) == Len(log) < MaxOps /\ log' = Append(log, [o |-> o, x |-> x])
Circle(c) == el' = ACircle(c.x, c.y, c.r) /\ Did("circle", c)
Refuse(c) == UNCHANGED el /\ Did("refuse", c)                  \* a negative radius
Default == el' = ACircle("zero", "zero", "five") /\ Did("default", 0)
PathOf(ps) == el' = APath(ps) /\ Did("path", ps)
Decorations == el' = Nothing /\ Did("decorations", 0)
Empty(what) == el' = [Nothing EXCEPT !.e = what] /\ Did(what, 0)
Fill(t) == Decorated(el) /\ el' = [el EXCEPT !.deco.fill = t] /\ Did("fill", t)
Stroke(t) == Decorated(el) /\ el' = [el EXCEPT !.deco.stroke = t] /\ Did("stroke", t)
Width(n) == Decorated(el) /\ el' = [el EXCEPT !.deco.width = n] /\ Did("width", n)
Undecorate == Decorated(el) /\ el' = [el EXCEPT !.deco = Plain] /\ Did("undecorate", 0)
Empties == {"group", "document", "scale", "translate"}
Do(o, x) == CASE o = "circle" -> Circle(x) [] o = "refuse" -> Refuse(x) [] o = "default" -> Default [] o = "path" -> PathOf(x)
              [] o = "decorations" -> Decorations [] o \in Empties -> Empty(o)
              [] o = "fill" -> Fill(x) [] o = "stroke" -> Stroke(x) [] o = "width" -> Width(x) [] o = "undecorate" -> Undecorate
May(S) == {<<>>} \cup {<<s>> : s \in S}
Next == \/ \E x, y \in Numbers, r \in Radii : Circle([x |-> x, y |-> y, r |-> r])
        \/ \E x, y \in Numbers : Refuse([x |-> x, y |-> y])
        \/ Default \/ Decorations \/ Undecorate
        \/ \E ps \in Points : PathOf(ps)
        \/ \E what \in Empties : Empty(what)
        \/ \E t \in May(Texts) : Fill(t) \/ Stroke(t)
        \/ \E n \in May(Numbers) : Width(n)
Spec == Init /\ [][Next]_vars

\* What reading the element's text gives: its attributes.
Some(n, v) == IF v = <<>> THEN <<>> ELSE <<[n |-> n, v |-> v[1]]>>
Deco(d) == Some("fill", d.fill) \o Some("stroke", d.stroke) \o Some("stroke-width", d.width)
Data(ps) == IF ps = <<>> THEN <<>> ELSE <<[n |-> "d", v |-> [k \in 1..Len(ps) |-> [c |-> IF k = 1 THEN "M" ELSE "L", x |-> ps[k].x, y |-> ps[k].y]]]>>
Attributes(x) ==
  CASE x.e = "circle" -> <<[n |-> "cx", v |-> x.cx], [n |-> "cy", v |-> x.cy], [n |-> "r", v |-> x.r]>> \o Deco(x.deco)
    [] x.e = "decorations" -> Deco(x.deco)
    [] x.e = "path" -> Data(x.ps)                              \* no fill and no stroke of its own
    [] x.e = "group" -> <<>>
    [] x.e = "document" -> <<[n |-> "height", v |-> "fivehundred"], [n |-> "width", v |-> "fivehundred"]>>
    [] x.e \in {"scale", "translate"} -> <<[n |-> x.e, v |-> <<"zero", "zero">>]>>
-----------------------------------------------------------------------------
(* How a text can stand in an attribute: special characters are written as     *)
(* references.  Reading what is written gives the text back; that is not so    *)
(* for the text as it is (SomeTextNeedsIt).                                    *)
Reference == [amp |-> <<"amp", "a", "m", "p", "semi">>, lt |-> <<"amp", "l", "t", "semi">>, quote |-> <<"amp", "q", "u", "o", "t", "semi">>,
              tab |-> <<"amp", "#", "9", "semi">>, nl |-> <<"amp", "#", "1", "0", "semi">>]
RECURSIVE Written(_), Read(_)
Written(t) == IF t = <<>> THEN <<>>
              ELSE (IF Head(t) \in DOMAIN Reference THEN Reference[Head(t)] ELSE <<Head(t)>>) \o Written(Tail(t))
From(w, n) == SubSeq(w, n + 1, Len(w))
Begins(w, r) == Len(w) >= Len(r) /\ SubSeq(w, 1, Len(r)) = r
\* An XML reader: ends at a quote, refuses <, resolves references, makes white space blanks.
Read(w) == IF w = <<>> THEN <<>>
           ELSE IF Head(w) \in {"quote", "lt"} THEN <<"ill-formed">>
           ELSE IF Head(w) = "amp"
                THEN LET fit == {n \in DOMAIN Reference : Begins(w, Reference[n])}
                     IN IF fit = {} THEN <<"ill-formed">> ELSE LET n == CHOOSE n \in fit : TRUE IN <<n>> \o Read(From(w, Len(Reference[n])))
           ELSE (IF Head(w) \in {"tab", "nl"} THEN <<"sp">> ELSE <<Head(w)>>) \o Read(Tail(w))
TextsOf(x) == {x.deco.fill, x.deco.stroke} \ {<<>>}
ReadsBack == \A t \in TextsOf(el) : Read(Written(t[1])) = t[1]
-----------------------------------------------------------------------------
\* Every attribute is written once, and what is not set is not written.
Once == LET a == Attributes(el) IN \A j, k \in 1..Len(a) : j # k => a[j].n # a[k].n
Absent == \A t \in {"fill", "stroke"} : (\E k \in 1..Len(Attributes(el)) : Attributes(el)[k].n = t) <=> (Decorated(el) /\ el.deco[t] # <<>>)
Latest == log'[Len(log')].o
OnlyDecorations == Latest \in {"fill", "stroke", "width", "undecorate"} => (el'.e = el.e /\ el'.cx = el.cx /\ el'.cy = el.cy /\ el'.r = el.r)
DecorationsOnly == [][OnlyDecorations]_vars
=============================================================================
