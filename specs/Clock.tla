------------------------------- MODULE Clock -------------------------------
(* Slots and the wall clock: slot s lasts from 6000*s to 6000*s + 5999 milliseconds after the common era began.        *)
(* A moment is given relative to the start of a slot; what is read while the clock goes on holds for one of the moments *)
(* at which it was read.                                                                                                *)
EXTENDS Naturals
SlotMillis == 6000
Moments(off, step, n) == {off + i * step : i \in 0..(n - 1)}
(* How many slots after the one it is relative to a moment lies. *)
SlotOf(m) == m \div SlotMillis
Left(m) == SlotMillis - (m % SlotMillis)
(* A slot lies in the future when it begins after this moment. *)
Ahead(d, m) == d > SlotOf(m)
=============================================================================
