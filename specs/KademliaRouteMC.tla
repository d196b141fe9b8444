--------------------------- MODULE KademliaRouteMC --------------------------
(* Whatever the tables are, a routed message never comes to a node twice:   *)
(* all IDs of B bits, and at every node any table and any connections.      *)
EXTENDS Kademlia
CONSTANTS B
N == 2^B
Nodes == 1..N
RECURSIVE Cb(_, _, _)
Cb(x, y, b) == IF b = 0 THEN 256 ELSE IF (x \div 2^(b-1)) = (y \div 2^(b-1)) THEN Cb(x % 2^(b-1), y % 2^(b-1), b - 1) ELSE B - b
cb == [x \in Nodes |-> [y \in Nodes |-> Cb(x - 1, y - 1, B)]]
VARIABLES key, me, last, seen
vars == <<key, me, last, seen>>
Init == key \in Nodes /\ me \in Nodes /\ last = 0 /\ seen = {}
\* any single active node (of several, one is chosen) and the connected ones
Next == \E x \in Nodes, a \in {{y} : y \in Nodes \ {me}} \cup {{}}, con \in {{}, {key}} :
   /\ x \in NextHops(cb, me, a, con, key, last)
   /\ me' = x /\ last' = me /\ seen' = seen \cup {me} /\ key' = key
Spec == Init /\ [][Next]_vars
NoLoop == me \notin seen
Closer == last # 0 => cb[me][key] >= cb[last][key]
=============================================================================
