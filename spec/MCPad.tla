------------------------------ MODULE MCPad ------------------------------
(* Every content size there can be, up to beyond the limit.                    *)
EXTENDS KsuPad, TLC, Json
CONSTANTS MaxN
VARIABLES n, k, p     \* content size, number of sub-blocks it is spread over, padding sub-block among them (0: none)
vars == <<n, k, p>>
Init == k \in 0..3 /\ n = HEAD * k /\ p \in 0..k
Grow == k > 0 /\ n < MaxN /\ n' = n + 1 /\ UNCHANGED <<k, p>>
Next == Grow
Spec == Init /\ [][Next]_vars

R1 == Plain(n)
R2 == Padded(n, p > 0)
Limit == /\ R1.ok => R1.total - 8 <= LIMIT
         /\ R2.ok => R2.total - 8 <= LIMIT
Aligned == R2.ok => R2.total % ALIGN = 0
Exact == R2.ok => R2.total = n + FRAME + (IF R2.pad < 0 THEN 0 ELSE HEAD + R2.pad)
\* refused only when there is no way to do it with at most one padding sub-block
NoNeedlessRefusal ==
    (~R2.ok /\ p = 0 /\ k = 1) => \A d \in {-1} \cup 0..ALIGN :
        LET t == n + FRAME + (IF d < 0 THEN 0 ELSE HEAD + d) IN ~(t % ALIGN = 0 /\ t - 8 <= LIMIT /\ (d <= ALIGN - HEAD - 1))
Interesting == (n <= 40) \/ (n + FRAME) % ALIGN \in ((ALIGN - 16)..(ALIGN - 1)) \cup 0..16 \/ n % 97 = 0 \/ n \in 16340..16400
Emit == (k = 1 \/ Interesting) => PrintT(ToJson([n |-> n, k |-> k, p |-> p, plain |-> R1, padded |-> R2, limit |-> LIMIT]))
=============================================================================
