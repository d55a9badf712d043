----------------------------- MODULE ElementsGen ----------------------------
(* One test per transition of Elements.                                        *)
EXTENDS Elements, Json
CONSTANTS Chars, MaxText
UpTo(n, S) == UNION {[1..k -> S] : k \in 0..n}
SomeTexts == UpTo(MaxText, Chars) \cup {<<"amp", "a", "m", "p", "semi">>, <<"amp", "#", "1", "0", "semi">>}
P(x, y) == [x |-> x, y |-> y]
SomePoints == {<<>>, <<P("zero", "neg")>>, <<P("third", "zero"), P("huge", "tiny")>>, <<P("zero", "zero"), P("zero", "zero"), P("neg", "third")>>}
Show == PrintT("@@" \o ToJson([log |-> log', e |-> el'.e, a |-> Attributes(el')]))
=============================================================================
