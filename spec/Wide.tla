----------------------------------- MODULE Wide -----------------------------------
(* Images too large to write down in a trace (more than 65535 positions along a side,   *)
(* or more than 65536 pixels).  Their content is a formula, and what a call returned or  *)
(* left behind is recorded at chosen positions together with the totals.                 *)
EXTENDS Img

WideLabel(i) == ((i * 31 + (i \div 251) * 7 + 7) % 997) + 1          \* i counts from 0
WideBuf(w, h) == [w |-> w, h |-> h, px |-> [i \in 1..(w * h) |-> WideLabel(i - 1)]]

\* every recorded <<x, y, v>> is the pixel of b there
Shows(b, at) == \A k \in DOMAIN at : In(b, at[k][1], at[k][2]) /\ at[k][3] = Px(b, at[k][1], at[k][2])
===================================================================================
