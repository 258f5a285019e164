------------------------------ MODULE Calendar ------------------------------
(* Days since 1 January 1970 as dates, and moments as they are written in   *)
(* the header fields of web responses ("Sun, 06 Nov 1994 08:49:37 GMT").     *)
EXTENDS Integers, Sequences, TLC

LeapYear(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
YearLen(y) == IF LeapYear(y) THEN 366 ELSE 365
\* days before the first of January of year y
Before(y) == LET z == y - 1 IN 365 * (y - 1970) + (z \div 4 - 492) - (z \div 100 - 19) + (z \div 400 - 4)
MonthLen(y, m) == IF m = 2 THEN (IF LeapYear(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE BeforeMonth(_, _)
BeforeMonth(y, m) == IF m = 1 THEN 0 ELSE BeforeMonth(y, m - 1) + MonthLen(y, m - 1)

DateOf(day) ==
  LET y0 == 1970 + day \div 366
      y == CHOOSE y \in y0..(y0 + 2) : Before(y) <= day /\ day < Before(y + 1)
      n == day - Before(y)
      m == CHOOSE m \in 1..12 : BeforeMonth(y, m) <= n /\ n < BeforeMonth(y, m) + MonthLen(y, m)
  IN [y |-> y, m |-> m, d |-> n - BeforeMonth(y, m) + 1, w |-> (day + 4) % 7]

WeekDays == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
Months == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Two(n) == (IF n < 10 THEN "0" ELSE "") \o ToString(n)

\* the moment `sec' seconds after the beginning of day `day'
DateText(day, sec) ==
  LET x == DateOf(day + sec \div 86400)
      s == sec % 86400
  IN WeekDays[x.w + 1] \o ", " \o Two(x.d) \o " " \o Months[x.m] \o " " \o ToString(x.y) \o " "
     \o Two(s \div 3600) \o ":" \o Two((s \div 60) % 60) \o ":" \o Two(s % 60) \o " GMT"
=============================================================================
