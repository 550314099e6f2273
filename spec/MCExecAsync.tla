---------------------------- MODULE MCExecAsync ----------------------------
EXTENDS ExecAsync
CONSTANTS NItems, Caps, QMaxs, Windows, MaxFails

St(name, kind) == [name |-> name, kind |-> kind]
ChainPlain == <<St("read", "io"), St("comp", "cpu"), St("save", "io")>>
ChainTwoCpu == <<St("c1", "cpu"), St("c2", "cpu"), St("save", "io")>>
ChainJoin == <<St("read", "io"), St("join", "join"), St("comp", "cpu"), St("save", "io")>>

Keys(n) == [i \in 1..n |-> i]
Subs(n, w) == [j \in 1..(n - w + 1) |-> <<100 + j, [m \in 1..w |-> j + m - 1]>>]

FailSets(n, ns) == {F \in SUBSET ((1..ns) \X (1..n)) : Cardinality(F) <= MaxFails}
SetToSeq1(F) == IF F = {} THEN <<>>
                ELSE IF Cardinality(F) = 1 THEN <<CHOOSE x \in F : TRUE>>
                ELSE LET a == CHOOSE x \in F : TRUE
                         b == CHOOSE x \in F : x # a IN <<a, b>>

PlainTopos == {[stages |-> ch, keys |-> Keys(NItems), subs |-> <<>>,
                fails |-> SetToSeq1(F), cap |-> c, qmax |-> m, stop_if_error |-> FALSE] :
               ch \in {ChainPlain, ChainTwoCpu}, F \in FailSets(NItems, 2),
               c \in Caps, m \in QMaxs}
JoinTopos == {[stages |-> ChainJoin, keys |-> Keys(NItems), subs |-> Subs(NItems, w),
               fails |-> SetToSeq1(F), cap |-> c, qmax |-> m, stop_if_error |-> FALSE] :
               w \in Windows, F \in FailSets(NItems, 1), c \in Caps, m \in QMaxs}
AllTopos == PlainTopos \union JoinTopos
=============================================================================
