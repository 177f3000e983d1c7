------------------------------- MODULE Options -------------------------------
(* The option --lint-ignore: a list of code names separated by commas.       *)
EXTENDS Text

CodeNames == {"O1000", "T1000", "T1001", "T1002", "T1004", "T1006", "T1007", "T1008", "L1000", "L1001", "L1002", "L1003",
              "L1004", "L1007", "V1000", "V1001", "V1002", "V1003", "R1000", "R1001", "R1002"}
CodeText == TLCEval([n \in CodeNames |-> T(n)])
COMMA == 44
RECURSIVE Split(_, _)
Split(s, c) == LET i == Find(s, c, 1) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(From(s, i + 1), c)
Named(t) == {n \in CodeNames : CodeText[n] = Upper(Strip(t))}
(* [ok, codes]: whether every part names a code, and these codes *)
IgnoreOption(s) ==
  LET parts == Split(s, COMMA)
  IN [ok |-> \A j \in 1..Len(parts) : Named(parts[j]) /= {}, codes |-> UNION {Named(parts[j]) : j \in 1..Len(parts)}]
=============================================================================
