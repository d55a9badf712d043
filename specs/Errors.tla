------------------------------- MODULE Errors -------------------------------
(* Errors as values (src/error.rs) and as the library's calls give them.  A    *)
(* program makes errors from messages and from other errors, gets them from    *)
(* calls that fail, and copies them; shown is what an error prints, source the *)
(* error that it was made from.                                                *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Messages, MaxOps
VARIABLES err, other, log
vars == <<err, other, log>>
view == <<err, other, Len(log)>>

Kinds == {"General", "Parse", "Definitions", "Duplicate", "Execution", "Locking", "Io", "Infallible"}
Made(kind, m) == [kind |-> kind, m |-> m, source |-> <<>>]
\* An error made from another one says what that one says.
From(kind, s) == [kind |-> kind, m |-> s, source |-> <<s>>]
Unspecified == Made("General", "unspecified")

\* Calls that fail: what each error is.  Those that are made on the spot name what is at
\* fault; a message of another error is passed on as it is.
Calls == [unregistered |-> Made("Definitions", "named"), taken |-> Made("Duplicate", "named"), nameless |-> Made("Definitions", "some"),
          code |-> Made("General", "named"), arrowless |-> Made("Parse", "named"), setting |-> Made("Parse", "named"),
          file |-> From("Io", "file"), count |-> From("Parse", "int"), angle |-> From("Parse", "float"),
          blank |-> Made("General", "some"), chance |-> Made("Parse", "some"), chances |-> Made("Execution", "some"), branch |-> Made("Execution", "some")]

Init == err = Unspecified /\ other = Unspecified /\ log = <<>>
Did(o, x) == Len(log) < MaxOps /\ log' = Append(log, [o |-> o, x |-> x])
Get(e) == err' = e /\ UNCHANGED other
Default == Get(Unspecified) /\ Did("default", 0)
New(kind, m) == Get(Made(kind, m)) /\ Did("new", [kind |-> kind, m |-> m])
Short == [general |-> "General", definition |-> "Definitions", parse |-> "Parse", execution |-> "Execution"]
Named(o, m) == Get(Made(Short[o], m)) /\ Did(o, m)
Sources == [io |-> "Io", int |-> "Parse", float |-> "Parse"]
Of(s) == Get(From(Sources[s], s)) /\ Did("of", s)
Poisoned == Get(Made("Locking", "poison")) /\ Did("poisoned", 0)
Call(c) == Get(Calls[c]) /\ Did("call", c)
Copy == other' = err /\ UNCHANGED err /\ Did("copy", 0)
Swap == err' = other /\ other' = err /\ Did("swap", 0)
Do(o, x) == CASE o = "default" -> Default [] o = "new" -> New(x.kind, x.m) [] o \in DOMAIN Short -> Named(o, x) [] o = "of" -> Of(x)
              [] o = "poisoned" -> Poisoned [] o = "call" -> Call(x) [] o = "copy" -> Copy [] o = "swap" -> Swap
Next == \/ Default \/ Poisoned \/ Copy \/ Swap
        \/ \E m \in Messages : (\E kind \in Kinds : New(kind, m)) \/ (\E o \in DOMAIN Short : Named(o, m))
        \/ \E s \in DOMAIN Sources : Of(s)
        \/ \E c \in DOMAIN Calls : Call(c)
Spec == Init /\ [][Next]_vars

Seen(e) == [definition |-> e.kind = "Definitions", m |-> e.m, source |-> e.source]
-----------------------------------------------------------------------------
\* Only an error made from another has a source, and then it is what it shows.
Passed == err.source # <<>> => (err.source[1] = err.m /\ ~Seen(err).definition)
Latest == log'[Len(log')].o
Keeps == [][(Latest = "copy" => (other' = err /\ err' = err)) /\ (Latest \notin {"copy", "swap"} => other' = other)]_vars
=============================================================================
