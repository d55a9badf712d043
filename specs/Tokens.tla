------------------------------- MODULE Tokens -------------------------------
(* What a token says (src/parser/token.rs): which kind its text has, how it    *)
(* prints, and which symbol it becomes.  A text is typed character by          *)
(* character.                                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Chars, Blank, MaxLen
VARIABLES text
vars == <<text>>

Init == text = <<>>
Type(c) == Len(text) < MaxLen /\ text' = Append(text, c)
Next == \E c \in Chars : Type(c)
Spec == Init /\ [][Next]_vars

Separators == [Arrow |-> <<"-", ">">>, ContextLeft |-> <<"<">>, ContextRight |-> <<">">>]
Kind(t) == IF t \in {<<>>, <<";">>} THEN "Terminator"
           ELSE IF \E s \in DOMAIN Separators : Separators[s] = t THEN CHOOSE s \in DOMAIN Separators : Separators[s] = t
           ELSE "Symbol"
KindShows(k) == IF k = "Symbol" THEN "Symbol" ELSE IF k = "Terminator" THEN ";" ELSE IF k = "Arrow" THEN "->" ELSE IF k = "ContextLeft" THEN "<" ELSE ">"
Shows(t) == IF t = <<>> THEN <<"E", "O", "S">> ELSE t
RECURSIVE Lead(_), Trail(_)
Lead(t) == IF t # <<>> /\ t[1] \in Blank THEN Lead(Tail(t)) ELSE t
Trail(t) == IF t # <<>> /\ t[Len(t)] \in Blank THEN Trail(SubSeq(t, 1, Len(t) - 1)) ELSE t
Trimmed(t) == Trail(Lead(t))
\* The name of the symbol that it becomes, if it becomes one.
Becomes(t) == IF Kind(t) = "Symbol" /\ Trimmed(t) # <<>> THEN <<Trimmed(t)>> ELSE <<>>
Seen(t) == [kind |-> Kind(t), kindShows |-> KindShows(Kind(t)), shows |-> Shows(t), ends |-> Kind(t) = "Terminator", symbol |-> Becomes(t)]
-----------------------------------------------------------------------------
\* A kind that is not Symbol prints as a text of that kind.
KindsPrint == \A s \in DOMAIN Separators : Kind(Separators[s]) = s
SymbolsAreNoSeparators == Becomes(text) # <<>> => (Kind(text) = "Symbol" /\ text # <<>>)
\* A symbol's name is a token that becomes the same symbol, unless it is itself a separator.
NamesStay == Becomes(text) # <<>> => (Becomes(Becomes(text)[1]) = Becomes(text) \/ Kind(Becomes(text)[1]) # "Symbol")
=============================================================================
