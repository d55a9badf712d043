------------------------------ MODULE DeriveMC ------------------------------
EXTENDS Derive
MCBodies == {<<>>, <<"B">>, <<"A", "B">>}
MCCtxs == {<<>>, <<<<"A">>>>}
=============================================================================
