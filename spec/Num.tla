-------------------------------- MODULE Num --------------------------------
(* Real numbers of the specification.  A real is the pair <<hi, lo>> of the *)
(* two 32-bit halves of an IEEE double, which is also how recorded traces   *)
(* spell their numbers, so values read from the implementation are exact.   *)
(* TLC evaluates every operator below with the Java method of the same name *)
(* in Num.java; the right-hand sides here are never evaluated.              *)
EXTENDS Integers, Sequences
LOCAL Undefined == CHOOSE x \in {} : TRUE
R(s)        == Undefined   \* the real written in string s
RInt(n)     == Undefined   \* the real equal to integer n
RStr(a)     == Undefined   \* decimal text of a
RAdd(a, b)  == Undefined
RSub(a, b)  == Undefined
RMul(a, b)  == Undefined
RDiv(a, b)  == Undefined
RNeg(a)     == Undefined
RAbs(a)     == Undefined
RSqrt(a)    == Undefined
RExp(a)     == Undefined
RLog(a)     == Undefined
RSin(a)     == Undefined
RCos(a)     == Undefined
RAcos(a)    == Undefined   \* argument clamped to [-1, 1]
RAtan2(a, b)== Undefined
RPow(a, b)  == Undefined
RMin(a, b)  == Undefined
RMax(a, b)  == Undefined
RLt(a, b)   == Undefined
RLe(a, b)   == Undefined
RFinite(a)  == Undefined   \* neither infinite nor NaN
RIsNaN(a)   == Undefined
RFloor(a)   == Undefined   \* the integer floor(a)
RSum(s)     == Undefined   \* sum of a sequence of reals
Tab(s)      == Undefined   \* the sequence s itself (computed once where TLC would compute its elements again and again)
Mark(i)     == Undefined   \* TRUE; counts that a clause was evaluated for event i
Report(i)   == Undefined   \* TRUE; prints the counts
Emit(t, v)  == Undefined   \* TRUE; writes t|v, v as JSON (pairs of integers are reals), for the replayer
SLt(s, t)   == Undefined   \* string order (byte-wise), as std::string compares
SCat(s, t)  == Undefined   \* string concatenation
============================================================================
