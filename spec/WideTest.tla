------------------------------ MODULE WideTest ------------------------------
(* The arithmetic of Wide on given cases; see tools/selftest_wide.py *)
EXTENDS Wide, Json, IOUtils
VARIABLES i, R
F(r) == CASE r.o = "+" -> WAdd(r.a, r.b) [] r.o = "-" -> WSub(r.a, r.b) [] r.o = "*" -> WMul(r.a, r.b)
          [] r.o = "/" -> WDiv(r.a, r.b) [] r.o = "%" -> WMod(r.a, r.b)
          [] r.o = "&" -> WAnd(r.a, r.b) [] r.o = "|" -> WOr(r.a, r.b) [] r.o = "^" -> WXor(r.a, r.b)
          [] r.o = "<<" -> WShl(r.a, WInt(r.b)) [] r.o = ">>" -> WShr(r.a, WInt(r.b))
          [] r.o = "<" -> IF WLt(r.a, r.b) THEN WOne ELSE WZero
          [] r.o = "id" -> IF WTiny(r.a) THEN WFrom(WInt(r.a)) ELSE r.a
Init == i = 0 /\ R = ndJsonDeserialize(IOEnv.CASES)
Next == i < Len(R) /\ i' = i + 1 /\ UNCHANGED R
Spec == Init /\ [][Next]_<<i, R>>
View == i
Right == i > 0 => F(R[i]) = R[i].r
=============================================================================
