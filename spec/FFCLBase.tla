------------------------------ MODULE FFCLBase ------------------------------
(* Definitions shared by all modules of the FFCL specification.             *)
(* Samples are sequences of integers; distances between samples are kept as *)
(* squared Euclidean distances (integers), so that everything is exact.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

BAD == -999999                      \* "the code returned something that is no value of this kind"

Abs(x)     == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Sq(x)      == x * x

SumSeq(s)  == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxSeq(s)  == FoldLeft(Max2, s[1], s)
MinSeq(s)  == FoldLeft(Min2, s[1], s)
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)

\* squared Euclidean / Manhattan distance of two samples of the same dimension
Dist2(p, q) == FoldLeftDomain(LAMBDA a, i : a + Sq(p[i] - q[i]), 0, p)
Dist1(p, q) == FoldLeftDomain(LAMBDA a, i : a + Abs(p[i] - q[i]), 0, p)

\* s is duplicate free
Distinct(s) == Cardinality(Range(s)) = Len(s)

\* s and t hold the same elements the same number of times
Count(s, x) == FoldLeft(LAMBDA a, y : IF y = x THEN a + 1 ELSE a, 0, s)
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ Range(s) = Range(t)
                 /\ \A x \in Range(s) : Count(s, x) = Count(t, x)

\* floor of the square root: bit by bit, no intermediate above 46340
RECURSIVE ISqrtFrom(_, _, _)
ISqrtFrom(q, r, bit) ==
    IF bit = 0 THEN r
    ELSE LET c == r + bit
         IN ISqrtFrom(q, IF c <= 46340 /\ c * c <= q THEN c ELSE r, bit \div 2)
ISqrt(q) == ISqrtFrom(q, 0, 32768)

IsIntSeq(s, lo, hi) == \A i \in DOMAIN s : s[i] \in lo..hi
=============================================================================
