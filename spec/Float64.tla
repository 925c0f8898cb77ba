------------------------------ MODULE Float64 ------------------------------
(* Real numbers for specifications whose quantities are not integers.  A    *)
(* number is the pair <<high, low>> of the (signed) 32-bit halves of an     *)
(* IEEE double.  TLC evaluates the operators by java/Float64.java; the      *)
(* definitions below only fix their arities.                                *)
EXTENDS Integers

RInt(n) == <<n, 0>>
RAdd(a, b) == CHOOSE x \in {a, b} : TRUE
RSub(a, b) == CHOOSE x \in {a, b} : TRUE
RMul(a, b) == CHOOSE x \in {a, b} : TRUE
RDiv(a, b) == CHOOSE x \in {a, b} : TRUE
RSqrt(a) == CHOOSE x \in {a} : TRUE
RFloor(a) == CHOOSE x \in {a} : TRUE
RLe(a, b) == CHOOSE x \in {a = b, TRUE} : TRUE
RLt(a, b) == CHOOSE x \in {a = b, TRUE} : TRUE
RRound(a) == CHOOSE x \in {a[1]} : TRUE
RShow(a) == CHOOSE x \in {""} : a = a

RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RQ(n, m) == RDiv(RInt(n), RInt(m))
=============================================================================
