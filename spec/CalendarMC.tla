----------------------------- MODULE CalendarMC -----------------------------
(* The calendar counted day by day, as one turns over its leaves, against   *)
(* the dates computed from the number of days.  Its turning points (the     *)
(* last days of months) are the moments responses are asked for.            *)
EXTENDS Calendar

CONSTANTS First, Last,  \* years, 1970 is day 0
          Flaw          \* "none", or how the leaves are bound: "century", "short", "week"

VARIABLES day, y, m, d, w, op
vars == <<day, y, m, d, w, op>>

Len_(yy, mm) ==
  CASE mm = 2 -> (IF Flaw = "century" THEN (IF yy % 4 = 0 THEN 29 ELSE 28)
                  ELSE IF yy % 400 = 0 THEN 29 ELSE IF yy % 100 = 0 THEN 28 ELSE IF yy % 4 = 0 THEN 29 ELSE 28)
    [] mm \in {4, 6, 9} -> 30
    [] mm = 11 -> (IF Flaw = "short" THEN 31 ELSE 30)
    [] OTHER -> 31

Init == /\ day = Before(First) /\ y = First /\ m = 1 /\ d = 1 /\ w = (Before(First) + 4) % 7 /\ op = <<"leaf">>
Next == /\ y <= Last
        /\ day' = day + 1
        /\ w' = IF Flaw = "week" /\ d = Len_(y, m) /\ m = 12 THEN w ELSE (w + 1) % 7
        /\ IF d < Len_(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE d' = 1 /\ (IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1)
        /\ op' = IF d' = 1 THEN <<"turn", day>> ELSE <<"leaf">>
Spec == Init /\ [][Next]_vars

Agrees == DateOf(day) = [y |-> y, m |-> m, d |-> d, w |-> w]
=============================================================================
