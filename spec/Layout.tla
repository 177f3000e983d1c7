------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Lint on the fields of a complete figure.                                *)
(* A field is [rng, label, brief] (rng.lo is the value for value figures). *)
(***************************************************************************)
EXTENDS Fields

(* bounds for comparison, none next to ellipses and textual ranges *)
Bounds(f) == IF f.label = TEllipsis \/ f.rng.k = "text" THEN <<>> ELSE <<f.rng>>
Comparable(a, b) == a.k = "int" /\ b.k = "int"

(* does some field start below the first field of its run of ranges? *)
RECURSIVE OutOfOrder(_, _, _)
OutOfOrder(fs, i, first) ==
  IF i > Len(fs) THEN FALSE
  ELSE LET b == Bounds(fs[i])
       IN IF b = <<>> THEN OutOfOrder(fs, i + 1, <<>>)
          ELSE IF first = <<>> THEN OutOfOrder(fs, i + 1, b)
          ELSE \/ Comparable(first[1], b[1]) /\ IntLess(b[1].lo, first[1].lo)
               \/ OutOfOrder(fs, i + 1, first)

RangeLint(prev, cur, fig) ==     \* prev, cur: ranges
  IF ~Comparable(prev, cur) THEN <<>>
  ELSE IF ~IntLess(prev.hi, cur.lo) THEN <<Issue("T1001", fig, cur.lo, <<>>)>>
  ELSE IF IntSucc(prev.hi) /= cur.lo THEN <<Issue("T1002", fig, cur.lo, <<>>)>>
  ELSE <<>>

RECURSIVE StructLintFrom(_, _, _, _)
StructLintFrom(fs, i, fig, prev) ==
  IF i > Len(fs) THEN <<>>
  ELSE LET f == fs[i]
           b == Bounds(f)
           dup == IF f.label \notin {TRESERVED, TEllipsis} /\ \E j \in 1..(i - 1) : fs[j].label = f.label
                       \* (the label of the first field counts whatever it is)
                    THEN <<Issue("L1002", fig, RowKey(f.rng), Ctx1("label", f.label))>> ELSE <<>>
           lay == IF prev = <<>> \/ b = <<>> THEN <<>> ELSE RangeLint(prev[1], b[1], fig)
       IN dup \o lay \o StructLintFrom(fs, i + 1, fig, b)
StructLint(fs, fig) ==
  IF Len(fs) < 2 THEN <<>>
  ELSE IF OutOfOrder(fs, 1, <<>>) THEN <<Issue("T1004", fig, None, <<>>)>>
  ELSE StructLintFrom(fs, 2, fig, Bounds(fs[1]))

RECURSIVE ValueLintFrom(_, _, _)
ValueLintFrom(fs, i, fig) ==
  IF i > Len(fs) THEN <<>>
  ELSE LET f == fs[i]
           Seen(P(_)) == \E j \in 1..(i - 1) : fs[j].label \notin {TRESERVED, TEllipsis} /\ P(fs[j])
       IN IF f.label \in {TRESERVED, TEllipsis} THEN ValueLintFrom(fs, i + 1, fig)
          ELSE (IF Seen(LAMBDA g : g.label = f.label) THEN <<Issue("L1002", fig, f.rng.lo, Ctx1("label", f.label))>> ELSE <<>>)
               \o (IF Seen(LAMBDA g : g.rng.lo = f.rng.lo) THEN <<Issue("V1002", fig, f.rng.lo, <<>>)>> ELSE <<>>)
               \o ValueLintFrom(fs, i + 1, fig)
ValueLint(fs, fig) == IF Len(fs) < 2 THEN <<>> ELSE ValueLintFrom(fs, 1, fig)
=============================================================================
