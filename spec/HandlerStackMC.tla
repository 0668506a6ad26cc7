--------------------------- MODULE HandlerStackMC ---------------------------
EXTENDS HandlerStack
McClasses == <<[size |-> 16, align |-> 8], [size |-> 104, align |-> 8], [size |-> 48, align |-> 16]>>
=============================================================================
