------------------------------ MODULE PartsGen ------------------------------
(* One test per transition of Parts.                                           *)
EXTENDS Parts, Json
H(l, t, r) == [l |-> l, t |-> t, r |-> r]
SomeHeads == {H(<<>>, "A", <<>>), H(<<<<"B">>>>, "A", <<>>), H(<<>>, "A", <<<<"B">>>>), H(<<<<>>>>, "A", <<>>), H(<<>>, "A", <<<<>>>>), H(<<>>, "B", <<>>)}
ManyHeads == SomeHeads \cup {H(<<<<"A", "B">>>>, "A", <<<<"B", "A">>>>), H(<<<<"B", "A">>>>, "A", <<<<"B", "A">>>>), H(<<<<"A", "B">>>>, "A", <<<<"A", "B">>>>), H(<<<<"B">>>>, "A", <<<<>>>>)}
SomeStrings == {<<>>, <<"A", "B">>}
SomeChances == {-1, 0, 100}
ManyChances == {-1, 0, 1, 10, 33, 50, 70, 99, 100}
Show == PrintT("@@" \o ToJson([log |-> log', p |-> p', q |-> q', same |-> Same', ps |-> Symbols(p'), qs |-> Symbols(q')]))
=============================================================================
