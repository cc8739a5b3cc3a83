----------------------------- MODULE TimeDesign ------------------------------
(***************************************************************************)
(* The calendar and the zone rules of Time: a clock walks through the       *)
(* years in half hours.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Years, Zones
T == INSTANCE Time
VARIABLES z, x, before     \* zone, instant, and the one half an hour ago
vars == <<z, x, before>>
Init == /\ z \in Zones
        /\ x \in {<<T!DayNo(y, 1, 1), 0>> : y \in Years}
        /\ before = T!Move(x, -1800)
Next == /\ T!Civil(T!Move(x, 1800)[1])[1] = T!Civil(x[1])[1]
        /\ x' = T!Move(x, 1800) /\ before' = x /\ z' = z
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Date(n) == T!Civil(n)
Calendar == LET d == Date(x[1])
                e == Date(x[1] + 1)
            IN /\ T!DayNo(d[1], d[2], d[3]) = x[1]
               /\ d[3] \in 1..T!DaysIn(d[1], d[2])
               /\ e = IF d[3] < T!DaysIn(d[1], d[2]) THEN <<d[1], d[2], d[3] + 1>>
                      ELSE IF d[2] < 12 THEN <<d[1], d[2] + 1, 1>> ELSE <<d[1] + 1, 1, 1>>
Local(u, o) == T!Move(u, o)
There == x \in T!ToUtc(z, Local(x, T!Offset(z, x)))
\* when the clock is put forward the skipped times do not exist, put back they come twice
Jump == T!Offset(z, x) - T!Offset(z, before)
Skipped == Jump > 0 => T!ToUtc(z, Local(x, T!Offset(z, before))) = {}
Twice == Jump < 0 => T!ToUtc(z, Local(x, T!Offset(z, x))) = {x, T!Move(x, Jump)}
Once == Jump = 0 /\ T!Offset(z, T!Move(x, -5400)) = T!Offset(z, x) /\ T!Offset(z, T!Move(x, 5400)) = T!Offset(z, x)
        => T!ToUtc(z, Local(x, T!Offset(z, x))) = {x}
\* clocks change on Sundays (by the old clock), only where there is summer time
Sundays == Jump # 0 => z \in T!Summer /\ T!Weekday(Local(x, T!Offset(z, before))[1]) = 0
=============================================================================
