----------------------------- MODULE SettingsMC -----------------------------
(* Reading the configuration file and deciding whether to start.             *)
(*                                                                           *)
(* A file is a sequence of words: "{" "}" ":" "comma", the names "k" (the     *)
(* setting looked at) and "o" (one the program does not know), the values 1  *)
(* and 2, and "base", standing for all other settings and their values.      *)
(* (A name where a value is expected is a string like any other.)            *)
(* What files mean is given by a grammar; reading them by a machine with a   *)
(* stack that is handed the file piece by piece.  The files are those the    *)
(* grammar has (up to Most entries) and all that differ from one of them by  *)
(* one word missing, too many or another one.  All are replayed.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Most,    \* entries of a file
          Piece,   \* words read at a time
          Flaw     \* "none", or how it goes wrong: "always", "nested", "piece", "tail"

VARIABLES text, have, pos, stack, want, name, got, verdict, op
vars == <<text, have, pos, stack, want, name, got, verdict, op>>

----------------------------------------------------------------------------
(* the grammar *)
Numbers == {"1", "2"}
Names == {"k", "o"}
Words == {"{", "}", ":", "comma", "base"} \cup Names \cup Numbers

RECURSIVE Values(_), Entries(_, _)
\* what may stand after a name, objects nested at most d deep
Values(d) == {<<n>> : n \in Numbers} \cup (IF d = 0 THEN {} ELSE {<<"{", "}">>} \cup {<<"{">> \o e \o <<"}">> : e \in Entries(1, d - 1)})
Entry(d) == {<<"base">>} \cup {<<m, ":">> \o v : m \in Names, v \in Values(d)}
Entries(k, d) == IF k = 1 THEN Entry(d) ELSE Entries(k - 1, d) \cup {a \o <<"comma">> \o b : a \in Entries(k - 1, d), b \in Entry(d)}

\* where in a text the words outside any inner object are
Depth(t, i) == Cardinality({j \in 1..i : t[j] = "{"}) - Cardinality({j \in 1..(i - 1) : t[j] = "}"})
At(t, w) == {i \in 1..Len(t) : t[i] = w /\ Depth(t, i) = 1}
\* it has everything once, and the setting is a number
Whole(t) == Cardinality(At(t, "base")) = 1 /\ Cardinality(At(t, "k")) = 1 /\ t[CHOOSE i \in At(t, "k") : TRUE] = "k"
            /\ LET i == CHOOSE i \in At(t, "k") : TRUE IN t[i + 2] \in Numbers
Usable == {t \in {<<"{">> \o e \o <<"}">> : e \in Entries(Most, 1)} : Whole(t)}
Setting(t) == t[(CHOOSE i \in At(t, "k") : TRUE) + 2]

Without(t, i) == SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t))
With(t, i, w) == SubSeq(t, 1, i - 1) \o <<w>> \o SubSeq(t, i, Len(t))
Slips(t) == UNION {{Without(t, i)} \cup {[t EXCEPT ![i] = w] : w \in Words \ {t[i]}} \cup {With(t, i, w) : w \in Words} : i \in 1..Len(t)}

\* an object, whatever is in it: by taking it apart
RECURSIVE IsObject(_), IsEntry(_), IsEntries(_)
IsObject(t) == Len(t) >= 2 /\ t[1] = "{" /\ t[Len(t)] = "}" /\ (Len(t) = 2 \/ IsEntries(SubSeq(t, 2, Len(t) - 1)))
IsEntry(t) == t = <<"base">> \/ (Len(t) >= 3 /\ t[1] \in Names /\ t[2] = ":"
                                 /\ LET v == SubSeq(t, 3, Len(t)) IN (Len(v) = 1 /\ v[1] \in Numbers \cup Names) \/ IsObject(v))
IsEntries(t) == t # <<>> /\ \/ IsEntry(t)
                             \/ \E i \in 2..(Len(t) - 1) : t[i] = "comma" /\ IsEntry(SubSeq(t, 1, i - 1)) /\ IsEntries(SubSeq(t, i + 1, Len(t)))
\* no configuration: not even the beginning of it is an object, or some other value
Useless(t) == t[1] \notin Numbers \cup Names \cup {"base"} /\ \A i \in 1..Len(t) : t[i] = "}" => ~ IsObject(SubSeq(t, 1, i))
\* (what else there is, things given twice or after the end, may be read in one way or another)

----------------------------------------------------------------------------
(* the machine *)
Init == /\ \/ text \in Usable
           \/ \E t \in Usable : \E s \in Slips(t) : Useless(s) /\ text = s
        /\ have = 0 /\ pos = 0 /\ stack = <<>> /\ want = "open" /\ name = "" /\ got = "" /\ verdict = ""
        /\ op = <<IF text \in Usable THEN Setting(text) ELSE "none">> \o text

Fetch ==
  /\ verdict = "" /\ pos = have /\ have < Len(text) /\ (Flaw = "piece" => have = 0)
  /\ have' = IF have + Piece > Len(text) THEN Len(text) ELSE have + Piece
  /\ UNCHANGED <<text, pos, stack, want, name, got, verdict, op>>

Fail == verdict' = "end" /\ UNCHANGED <<stack, want, name, got>>
Open == stack' = Append(stack, "{") /\ want' = "inside" /\ UNCHANGED <<name, got, verdict>>
Close == /\ stack' = Front(stack) /\ want' = IF Len(stack) = 1 THEN "nothing" ELSE "next"
         /\ UNCHANGED <<name, got, verdict>>
Top == Len(stack) = 1 \/ Flaw = "nested"

Take ==
  /\ verdict = "" /\ pos < have /\ want # "nothing"
  /\ pos' = pos + 1
  /\ LET w == text[pos + 1] IN
     CASE want = "open" -> IF w = "{" THEN Open ELSE Fail
       [] want \in {"inside", "entry"} ->
            (CASE w = "base" -> want' = "next" /\ UNCHANGED <<stack, name, got, verdict>>
               [] w \in Names -> want' = "colon" /\ name' = w /\ UNCHANGED <<stack, got, verdict>>
               [] w = "}" /\ (want = "inside" \/ Flaw = "tail") -> Close
               [] OTHER -> Fail)
       [] want = "colon" -> IF w = ":" THEN want' = "value" /\ UNCHANGED <<stack, name, got, verdict>> ELSE Fail
       [] want = "value" ->
            (CASE w \in Numbers -> /\ want' = "next" /\ got' = IF name = "k" /\ Top THEN w ELSE got
                                   /\ UNCHANGED <<stack, name, verdict>>
               [] w \in Names -> want' = "next" /\ UNCHANGED <<stack, name, got, verdict>>
               [] w = "{" -> Open
               [] OTHER -> Fail)
       [] OTHER -> (CASE w = "comma" -> want' = "entry" /\ UNCHANGED <<stack, name, got, verdict>>
                      [] w = "}" -> Close
                      [] OTHER -> Fail)
  /\ UNCHANGED <<text, have, op>>

Decide ==
  /\ verdict = "" /\ (want = "nothing" \/ (pos = have /\ (have = Len(text) \/ (Flaw = "piece" /\ have > 0))))
  /\ verdict' = IF want = "nothing" THEN "start" ELSE "end"
  /\ UNCHANGED <<text, have, pos, stack, want, name, got, op>>

Next == Fetch \/ Take \/ Decide
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Verdict == IF Flaw = "always" /\ verdict = "end" THEN "start" ELSE verdict
Stay == UNCHANGED vars
Started == Verdict = "start" => /\ ~ Useless(text)
                                /\ text \in Usable => got = Setting(text)
Ended == Verdict = "end" => text \notin Usable
Decided == <>(verdict # "")
=============================================================================
