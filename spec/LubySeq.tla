------------------------------- MODULE LubySeq ------------------------------
(* The textbook definition of the Luby sequence 1 1 2 1 1 2 4 ...            *)
EXTENDS Integers
RECURSIVE LubyTerm(_)
RECURSIVE BlockOf(_, _)
BlockOf(i, k) == IF 2 ^ k - 1 >= i THEN k ELSE BlockOf(i, k + 1)
LubyTerm(i) == LET k == BlockOf(i, 1) IN IF i = 2 ^ k - 1 THEN 2 ^ (k - 1) ELSE LubyTerm(i - 2 ^ (k - 1) + 1)
=============================================================================
