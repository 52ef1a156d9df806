--------------------------------- MODULE Buffer ---------------------------------
(* The pixel buffer as a mutable row-major grid (B01) and its whole-buffer edits  *)
(* (B02).  The state is a set of slots, each empty or holding a buffer of labels. *)
(* Every public call is an action; Result(c) is what the call returns.            *)
EXTENDS Wide

VARIABLE slots                       \* [0..n -> buffer or NoBuf]

NoBuf == [w |-> -1, h |-> -1, px |-> <<>>]
Has(s) == slots[s].w >= 0

Refused == [ok |-> FALSE]
Ret(v) == [ok |-> TRUE, v |-> v]

\* the label an edit's function writes at its i-th call (from 0) when it sees label v
NewLabel(v, i) == ((v * 3 + i * 7 + 5) % 997) + 1

--------------------------------------------------------------------------------
\* Creation. fail is the call at which a creating function fails (-1: never).
CreateRefused(c) ==
    \/ ~ValidSize(c.w, c.h)
    \/ c.mk = "raw" /\ Len(c.px) # c.w * c.h
CreateFails(c) == c.mk = "tryfunc" /\ c.fail >= 0 /\ c.fail < c.w * c.h
Created(c) ==
    Buf(c.w, c.h,
        CASE c.mk = "default" -> [i \in 1..(c.w * c.h) |-> 0]
          [] c.mk = "color"   -> [i \in 1..(c.w * c.h) |-> c.px[1]]
          [] c.mk = "raw"     -> c.px
          [] OTHER            -> [i \in 1..(c.w * c.h) |-> NewLabel(0, i - 1)])
\* the calls of a creating function: row-major, each position once, up to the failing one
CreateVisits(c) ==
    IF c.mk \notin {"func", "tryfunc"} THEN <<>>
    ELSE [i \in 1..(IF CreateFails(c) THEN c.fail + 1 ELSE c.w * c.h) |->
             <<(i - 1) % c.w, (i - 1) \div c.w, -1>>]

New(c) ==
    IF CreateRefused(c)
    THEN [ret |-> Refused, vis |-> <<>>, slots |-> slots]
    ELSE IF CreateFails(c)
    THEN [ret |-> Ret(100 + c.fail), vis |-> CreateVisits(c), slots |-> slots]
    ELSE [ret |-> Ret(0), vis |-> CreateVisits(c), slots |-> [slots EXCEPT ![c.s] = Created(c)]]

--------------------------------------------------------------------------------
\* Single-pixel access
Pure(r) == [ret |-> r, vis |-> <<>>, slots |-> slots]
Write(s, i, k) == [ret |-> Ret(0), vis |-> <<>>, slots |-> [slots EXCEPT ![s].px[i] = k]]

Get(c) == LET b == slots[c.s] IN
    IF In(b, c.x, c.y) THEN Pure(Ret(Px(b, c.x, c.y))) ELSE Pure(Refused)
Put(c) == LET b == slots[c.s] IN
    IF In(b, c.x, c.y) THEN Write(c.s, Idx(b, c.x, c.y), c.k) ELSE Pure(Refused)
Opt(c) == LET b == slots[c.s] IN
    Pure(Ret(IF In(b, c.x, c.y) THEN Px(b, c.x, c.y) ELSE -9))
\* an empty buffer has no nearest pixel: the call is refused
Clamped(c) == LET b == slots[c.s] IN
    IF b.w = 0 THEN Pure(Refused) ELSE Pure(Ret(PxClamped(b, c.x, c.y)))
IsIn(c) == Pure(Ret(In(slots[c.s], c.x, c.y)))
Empty(c) == Pure(Ret(slots[c.s].w = 0 /\ slots[c.s].h = 0))
DataPut(c) == Write(c.s, c.i + 1, c.k)
Enum(c) == LET b == slots[c.s] IN
    Pure(Ret([i \in 1..Len(b.px) |-> <<XOf(b, i), YOf(b, i), b.px[i]>>]))
EnumPut(c) == LET b == slots[c.s] IN
    IF In(b, c.x, c.y) THEN Write(c.s, Idx(b, c.x, c.y), c.k) ELSE Pure(Ret(0))
Clone(c) == [ret |-> Ret(0), vis |-> <<>>, slots |-> [slots EXCEPT ![c.d] = slots[c.s]]]
SizeOk(c) == Pure(Ret(ValidSize(c.w, c.h)))

--------------------------------------------------------------------------------
\* Whole-buffer edits: in place (edit) or into a new buffer (map)
WithCoords(k) == k \in {"mod_e", "try_mod_e", "map_e", "try_map_e"}
Fails(c, n) == c.fail >= 0 /\ c.fail < n
Visits(c, b) ==
    [i \in 1..(IF Fails(c, Len(b.px)) THEN c.fail + 1 ELSE Len(b.px)) |->
        IF WithCoords(c.k) THEN <<XOf(b, i), YOf(b, i), b.px[i]>> ELSE <<-1, -1, b.px[i]>>]
Edited(b, upto) == Buf(b.w, b.h,
    [i \in 1..Len(b.px) |-> IF i <= upto THEN NewLabel(b.px[i], i - 1) ELSE b.px[i]])

Edit(c) == LET b == slots[c.s]
               n == Len(b.px) IN
    IF Fails(c, n)
    THEN [ret |-> Ret(100 + c.fail), vis |-> Visits(c, b),
          slots |-> [slots EXCEPT ![c.s] = Edited(b, c.fail)]]
    ELSE [ret |-> Ret(0), vis |-> Visits(c, b), slots |-> [slots EXCEPT ![c.s] = Edited(b, n)]]
Map(c) == LET b == slots[c.s]
              n == Len(b.px) IN
    IF Fails(c, n)
    THEN [ret |-> Ret(100 + c.fail), vis |-> Visits(c, b), slots |-> slots]
    ELSE [ret |-> Ret(0), vis |-> Visits(c, b), slots |-> [slots EXCEPT ![c.d] = Edited(b, n)]]

--------------------------------------------------------------------------------
Call(c) ==
    CASE c.op = "new"       -> New(c)
      [] c.op = "validsize" -> SizeOk(c)
      [] c.op = "get"       -> Get(c)
      [] c.op = "put"       -> Put(c)
      [] c.op = "opt"       -> Opt(c)
      [] c.op = "clamped"   -> Clamped(c)
      [] c.op = "isin"      -> IsIn(c)
      [] c.op = "empty"     -> Empty(c)
      [] c.op = "dataput"   -> DataPut(c)
      [] c.op = "enum"      -> Enum(c)
      [] c.op = "enumput"   -> EnumPut(c)
      [] c.op = "clone"     -> Clone(c)
      [] c.op = "edit"      -> Edit(c)
      [] c.op = "map"       -> Map(c)

Step(c) == slots' = Call(c).slots
AllWellFormed == \A s \in DOMAIN slots : Has(s) => WellFormed(slots[s])
================================================================================
