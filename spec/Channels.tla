---------------------------------- MODULE Channels ----------------------------------
(* A colour as a record of four channels: three of its model and alpha.  Every channel   *)
(* is set and read on its own; maps see the three colour channels, in order, and never   *)
(* alpha.  Making a colour (also by a map) limits it to 0..1 for the models that are     *)
(* bounded (RGB, sRGB); setting a channel does not.  Values are multiples of 1/8, so     *)
(* everything here is exact.                                                             *)
EXTENDS Integers, Sequences, TLC
One == 8
Black == <<0, 0, 0, One>>
Consts == [NONE |-> <<0, 0, 0, 0>>, WHITE |-> <<One, One, One, One>>, BLACK |-> Black, RED |-> <<One, 0, 0, One>>, GREEN |-> <<0, One, 0, One>>,
           BLUE |-> <<0, 0, One, One>>, CYAN |-> <<0, One, One, One>>, MAGENTA |-> <<One, 0, One, One>>, YELLOW |-> <<One, One, 0, One>>]
\* the function used for maps by value, and the one used for maps by position
F(v) == One - 2 * v
G(v, n) == v + 16 * n + 3
Clamp1(v) == IF v < 0 THEN 0 ELSE IF v > One THEN One ELSE v
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Made(e, v) == IF e.unit THEN [i \in DOMAIN v |-> Clamp1(v[i])] ELSE v
\* what a call makes of the colour: c the colour afterwards, out what it returned
Same(c) == [c |-> c, out |-> <<>>]
Call(c, e) ==
    CASE e.op = "new3"    -> Same(Made(e, <<e.v[1], e.v[2], e.v[3], One>>))
      [] e.op = "new4"    -> Same(Made(e, e.v))
      [] e.op = "fromfn"  -> Same(Made(e, e.v))
      [] e.op = "default" -> Same(<<0, 0, 0, 0>>)
      [] e.op = "const"   -> Same(Consts[e.name])
      [] e.op \in {"set", "data"} -> Same([c EXCEPT ![e.i] = e.x])
      [] e.op = "with"    -> [c |-> c, out |-> [c EXCEPT ![e.i] = e.x]]
      [] e.op = "map"     -> [c |-> c, out |-> Made(e, <<G(c[1], 1), G(c[2], 2), G(c[3], 3), c[4]>>)]
      [] e.op = "trymap"  -> [c |-> c, out |-> IF e.fail \in 1..3 THEN <<e.fail>> ELSE Made(e, <<G(c[1], 1), G(c[2], 2), G(c[3], 3), c[4]>>)]
      \* of RGB colours
      [] e.op = "mod"     -> Same(<<F(c[1]), F(c[2]), F(c[3]), c[4]>>)
      [] e.op = "free"    -> [c |-> c, out |-> <<F(c[1]), F(c[2]), F(c[3]), c[4]>>]
      [] e.op = "clamped" -> [c |-> c, out |-> <<Clamp1(F(c[1])), Clamp1(F(c[2])), Clamp1(F(c[3])), c[4]>>]
      \* the smallest and the largest channel, of colours in the range
      [] e.op = "extreme" -> [c |-> c, out |-> <<Least(c[1], Least(c[2], c[3])), Most(c[1], Most(c[2], c[3]))>>]
\* the values a map was shown
Seen(c, e) == CASE e.op = "map" -> <<c[1], c[2], c[3]>>
                [] e.op = "trymap" -> [n \in 1..(IF e.fail \in 1..3 THEN e.fail ELSE 3) |-> c[n]]
                [] OTHER -> <<>>
======================================================================================
