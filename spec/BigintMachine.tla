---------------------------- MODULE BigintMachine ---------------------------
(* Integers of unlimited size (math/bigint, math/unsigned_bigint).          *)
(* st = <<signed, registers>>: every register holds an integer, written in  *)
(* decimal.  Each event names the registers it used and reports the decimal *)
(* text of the register it wrote; the text is the canonical one.            *)
EXTENDS Integers, Sequences, Big, MState
Base == "1000000000"                        \* shifts move by whole digits of this base
Reg(i) == st[2][i + 1]
Write(i, v, shown) == shown = v /\ st' = <<st[1], [st[2] EXCEPT ![i + 1] = v]>>
Same(p) == p = TRUE /\ UNCHANGED st
Wrap(v, w, sg) == LET m == BPow(2, w)  r == BMod(v, m) IN IF sg /\ ~BLt(r, BPow(2, w - 1)) THEN BSub(r, m) ELSE r
BigStep(e) ==
  CASE e[1] = "set" -> Write(e[2], BStr(e[3]), e[4])                              \* from text (leading zeros, "-0") or a machine integer
    [] e[1] = "copy" -> Write(e[2], Reg(e[3]), e[4])
    [] e[1] = "add" -> Write(e[2], BAdd(Reg(e[3]), Reg(e[4])), e[5])
    [] e[1] = "sub" -> /\ st[1] \/ BLe(Reg(e[4]), Reg(e[3]))
                       /\ Write(e[2], BSub(Reg(e[3]), Reg(e[4])), e[5])
    [] e[1] = "mul" -> Write(e[2], BMul(Reg(e[3]), Reg(e[4])), e[5])
    [] e[1] = "div" -> ~BEq(Reg(e[4]), 0) /\ Write(e[2], BQuo(Reg(e[3]), Reg(e[4])), e[5])
    [] e[1] = "rem" -> ~BEq(Reg(e[4]), 0) /\ Write(e[2], BRem(Reg(e[3]), Reg(e[4])), e[5])
    [] e[1] = "divmod" -> Same(/\ ~BEq(Reg(e[3]), 0)
                               /\ e[4] = BQuo(Reg(e[2]), Reg(e[3])) /\ e[5] = BRem(Reg(e[2]), Reg(e[3])))
    [] e[1] = "inc" -> Write(e[2], BAdd(Reg(e[2]), 1), e[4]) /\ e[3] = BAdd(Reg(e[2]), 1)
    [] e[1] = "dec" -> (st[1] \/ BLt(0, Reg(e[2]))) /\ Write(e[2], BSub(Reg(e[2]), 1), e[4]) /\ e[3] = BSub(Reg(e[2]), 1)
    [] e[1] = "pinc" -> Write(e[2], BAdd(Reg(e[2]), 1), e[4]) /\ e[3] = Reg(e[2])
    [] e[1] = "pdec" -> (st[1] \/ BLt(0, Reg(e[2]))) /\ Write(e[2], BSub(Reg(e[2]), 1), e[4]) /\ e[3] = Reg(e[2])
    [] e[1] = "neg" -> Write(e[2], BNeg(Reg(e[3])), e[4])
    [] e[1] = "shl" -> Write(e[2], BMul(Reg(e[3]), BPow(Base, e[4])), e[5])
    [] e[1] = "shr" -> Write(e[2], BQuo(Reg(e[3]), BPow(Base, e[4])), e[5])
    [] e[1] = "cmp" -> Same(LET x == Reg(e[2])  y == Reg(e[3]) IN
                            e[4] = <<BLt(x, y), BLe(x, y), BLt(y, x), BLe(y, x), BEq(x, y), ~BEq(x, y)>>)
    [] e[1] = "bool" -> Same(e[3] = ~BEq(Reg(e[2]), 0))
    [] e[1] = "cast" -> Same(e[5] = Wrap(Reg(e[2]), e[3], e[4]))                  \* to an integer of e[3] bits, signed or not
    [] e[1] = "real" -> Same(BLt(BAbs(Reg(e[2])), BPow(2, 53)) => e[3] = Reg(e[2]))
    [] OTHER -> FALSE
BigInit(k, p) == <<k = "big", <<"0", "0", "0", "0">>>>
BigNext(k, p, e) == BigStep(e)
=============================================================================
