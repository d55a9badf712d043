------------------------------ MODULE StoreGen ------------------------------
(* One test per transition of Store: the calls leading to it (hidden from the   *)
(* state by the view), the call itself and everything observable afterwards.    *)
EXTENDS Store, Json

P(l, t, r, c, b) == [l |-> l, t |-> t, r |-> r, bs |-> <<[c |-> c, b |-> b]>>]
PP(l, t, r, c, b, d, e) == [l |-> l, t |-> t, r |-> r, bs |-> <<[c |-> c, b |-> b], [c |-> d, b |-> e]>>]
MCProductions == { P(<<>>, "A", <<>>, -1, <<>>),
                   P(<<>>, "A", <<>>, 20, <<"C", "D">>),
                   P(<<<<"B">>>>, "A", <<>>, -1, <<"A">>),
                   P(<<>>, "A", <<<<>>>>, -1, <<"B">>),
                   P(<<>>, "B", <<<<"A", "D">>>>, 0, <<"D", "D">>) }
MCProductions2 == { P(<<>>, "A", <<>>, -1, <<"B">>), P(<<<<"C">>>>, "A", <<>>, 20, <<"A">>) }
MCProductions3 == { P(<<>>, "A", <<>>, -1, <<"B">>), P(<<<<"C">>>>, "A", <<<<"D">>>>, 20, <<"A">>), P(<<<<"C">>>>, "A", <<<<"D">>>>, -1, <<>>),
                    P(<<<<"C">>>>, "A", <<>>, -1, <<"B", "E">>), P(<<>>, "A", <<<<"D">>>>, -1, <<"B", "E">>) }
\* Productions given with several bodies at once.
MCProductions4 == { PP(<<>>, "A", <<>>, -1, <<"B">>, 10, <<"C", "D">>), P(<<>>, "A", <<>>, 20, <<"E">>), PP(<<<<"B">>>>, "A", <<>>, 5, <<"A">>, -1, <<>>),
                    PP(<<>>, "A", <<>>, -1, <<>>, -1, <<"F">>) }
\* Heads that are almost the same: order, number and side of the symbols of a context.
MCProductions5 == { P(<<<<"C", "D">>>>, "A", <<>>, -1, <<"B">>), P(<<<<"D", "C">>>>, "A", <<>>, -1, <<>>), P(<<<<"C", "C">>>>, "A", <<>>, -1, <<"A">>),
                    P(<<<<"C">>>>, "A", <<>>, 20, <<"B">>), P(<<>>, "A", <<<<"C", "D">>>>, -1, <<"C">>), P(<<<<>>>>, "A", <<<<"C">>>>, -1, <<"C">>) }
One == <<"system">>
Two == <<"system", "system">>
Own == <<"own">>
Mixed == <<"system", "own">>
StartsOne == <<{{}, {"A", "C"}}>>
StartsTwo == <<{{}, {"A", "C"}}, {{}}>>
StartsOwn == <<{{}}>>
StartsMixed == <<{{}}, {{}}>>
MCProbes == <<<<"A">>, <<"B", "A">>, <<"B", "A", "D">>, <<"C", "A", "D">>>>

Show == PrintT("@@" \o ToJson([kinds |-> Stores, h |-> h', alpha |-> alpha', prods |-> prods',
                               can |-> [s \in Ids |-> Derivable(s)']]))
=============================================================================
