------------------------------- MODULE Arith -------------------------------
(* Integers, without sequences (this module and those which only extend it  *)
(* can be checked symbolically, see Ind_*.tla).                             *)
EXTENDS Naturals, Integers
\* @type: (Int, Int) => Int;
Min2(a, b) == IF a < b THEN a ELSE b
\* @type: (Int, Int) => Int;
Max2(a, b) == IF a > b THEN a ELSE b
\* @type: (Int, Int) => Int;
Monus(a, b) == IF a > b THEN a - b ELSE 0
=============================================================================
