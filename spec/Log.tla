-------------------------------- MODULE Log ---------------------------------
(* The two logs as texts that only grow: what is added by each operation.    *)
EXTENDS Calendar

Three(n) == (IF n < 100 THEN "0" ELSE "") \o Two(n)
\* the moment `ms' milliseconds after second `sec' of day `day', as it is written in logs
Stamp(day, sec, ms) ==
  LET x == DateOf(day)
  IN ToString(x.y) \o "/" \o Two(x.m) \o "/" \o Two(x.d) \o " "
     \o Two(sec \div 3600) \o ":" \o Two((sec \div 60) % 60) \o ":" \o Two(sec % 60) \o "." \o Three(ms)

Rank(lv) == CASE lv = "error" -> 0 [] lv = "info" -> 1 [] OTHER -> 2
\* records up to this length are whole
Surely == 400

Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
RECURSIVE Where(_, _, _)
Where(s, c, k) == IF k > Len(s) THEN 0 ELSE IF SubSeq(s, k, k) = c THEN k ELSE Where(s, c, k + 1)

\* s is a record of that text: level and time, who wrote it, the text, of which the end may be missing if it is long
IsRecord(s, head, text) ==
  /\ Starts(s, head)
  /\ LET k == Where(s, "{", Len(head) + 1)
         rest == SubSeq(s, k, Len(s))
     IN k > 0 /\ (rest = text \/ (Len(s) >= Surely /\ Starts(text, rest)))

LogInit == [level |-> 0, open |-> FALSE, busy |-> FALSE, t |-> {}]

LogStep(S, e) ==
  LET bad(c) == IF c THEN {} ELSE {"P30"}
      nothing == e.main = "" /\ e.access = ""
  IN
  CASE e.e \in {"new", "reopen"} -> [S EXCEPT !.open = TRUE, !.t = bad(e.kept /\ nothing)]
    [] e.e = "shut" -> [S EXCEPT !.open = FALSE, !.t = bad(e.kept /\ nothing)]
    [] e.e = "level" -> [S EXCEPT !.level = e.n, !.t = {}]
    [] e.e = "busy" -> [S EXCEPT !.busy = e.on, !.t = {}]
    \* what another process adds stays where it was put
    [] e.e = "other" -> [S EXCEPT !.t = bad(e.kept /\ e.main = e.text /\ e.access = e.text)]
    [] e.e = "put" ->
         LET head == "[" \o e.lv \o "] " \o Stamp(e.day, e.sec, e.ms) \o " "
             mine == IF e.lv = "info" THEN e.access ELSE e.main
             else_ == IF e.lv = "info" THEN e.main ELSE e.access
             \* what the others add comes after the whole of it
             s == IF S.busy /\ mine # "" THEN SubSeq(mine, 1, Len(mine) - 1) ELSE mine
         IN [S EXCEPT !.t = bad(/\ e.kept
                                /\ else_ = ""
                                /\ IF S.open /\ Rank(e.lv) <= S.level
                                   THEN IsRecord(s, head, e.text) /\ (S.busy => mine = s \o "~")
                                   ELSE mine = "")]
    [] e.e \in {"crash", "hang"} -> [S EXCEPT !.t = {"P30"}]
    [] OTHER -> [S EXCEPT !.t = {}]
=============================================================================
