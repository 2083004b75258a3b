------------------------------ MODULE RatSelf -------------------------------
(***************************************************************************)
(* The Java overrides of Rat, checked against integer arithmetic and their   *)
(* defining laws over a grid of fractions.  Every check run starts with this.*)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, TLC
VARIABLES a, b, c, d
Grid == -4..4
Init == a \in Grid /\ b \in 1..4 /\ c \in Grid /\ d \in 1..4
Spec == Init /\ [][FALSE]_<<a, b, c, d>>
x == RFrac(a, b)
y == RFrac(c, d)
Tiny == "1/1000000000000000000000000000000"
Near(p, q) == RLe(RAbs(RSub(p, q)), Tiny)
Canon == (x = y) <=> (a * d = b * c)
Order == /\ RLt(x, y) <=> a * d < c * b
         /\ RLe(x, y) <=> a * d <= c * b
Ring == /\ RAdd(x, y) = RFrac(a * d + c * b, b * d)
        /\ RSub(x, y) = RFrac(a * d - c * b, b * d)
        /\ RMul(x, y) = RFrac(a * c, b * d)
        /\ RFloor(x) = RInt(a \div b)
        /\ c # 0 => RDiv(x, y) = RFrac(IF c > 0 THEN a * d ELSE -(a * d), b * (IF c > 0 THEN c ELSE -c))
Sums == /\ RSum(<<x, y, x>>) = RAdd(x, RAdd(y, x))
        /\ RSum(<<>>) = "0"
        /\ RDot(<<x, y>>, <<y, y>>) = RAdd(RMul(x, y), RMul(y, y))
Roots == a >= 0 => /\ Near(RSq(RSqrt(x)), x)
                   /\ Near(RMul(RSq(RRoot(x, 3)), RRoot(x, 3)), x)
                   /\ RSqrt(RSq(x)) = x
                   /\ RIsSquare(RSq(x)) /\ ~RIsSquare(RMul("2", RSq(RAdd(x, "1"))))
                   /\ RRoot(x, 1) = x
Exps == /\ Near(RDiv(RMul(RExp(x), RExp(y)), RExp(RAdd(x, y))), "1")
        /\ Near(RLn(RExp(x)), x)
        /\ RLt(RAdd("1", x), RExp(x)) \/ x = "0"
Trig == /\ Near(RAdd(RSq(RSin(x)), RSq(RCos(x))), "1")
        /\ Near(RSin(RAdd(x, y)), RAdd(RMul(RSin(x), RCos(y)), RMul(RCos(x), RSin(y))))
        /\ Near(RSin(RPi(0)), "0") /\ Near(RCos(RPi(0)), "-1")
        /\ RLt("3", RPi(0)) /\ RLt(RPi(0), "4")
M2 == <<<<x, y>>, <<"2", x>>>>
M3 == <<<<x, y, "1">>, <<"0", x, y>>, <<y, "1/3", "-2">>>>
I2 == <<<<"1", "0">>, <<"0", "1">>>>
I3 == <<<<"1", "0", "0">>, <<"0", "1", "0">>, <<"0", "0", "1">>>>
Mats == /\ MMul(M2, M2)[1][2] = RAdd(RMul(x, y), RMul(y, x)) /\ MMul(M2, M2)[2][1] = RAdd(RMul("2", x), RMul(x, "2"))
        /\ MMul(M2, <<<<x>>, <<y>>>>) = <<<<RAdd(RSq(x), RSq(y))>>, <<RAdd(RMul("2", x), RMul(x, y))>>>>
        /\ MDet(M2) = RSub(RSq(x), RMul("2", y))
        /\ MDet(M3) = RAdd(RSub(RMul(x, RSub(RMul(x, "-2"), RMul(y, "1/3"))), RMul(y, RSub("0", RSq(y)))), RSub("0", RMul(x, y)))
        /\ MDet(M2) # "0" => MMul(M2, MInv(M2)) = I2 /\ MMul(MInv(M2), M2) = I2
        /\ MDet(M3) # "0" => MMul(M3, MInv(M3)) = I3 /\ MMul(MInv(M3), M3) = I3
=============================================================================
