--------------------------------- MODULE Bitboard ---------------------------------
(***************************************************************************)
(* The arithmetic on bitboards (src/bitboard/), instruction by instruction,*)
(* for the 9 x 9 board: the portable form, and those for x86-64 (AVX2),    *)
(* AArch64 (NEON) and WebAssembly.  A word of 128 bits is the set of its   *)
(* one bits.  63 squares (7 files) are in the low half, 18 in the high.    *)
(*                                                                         *)
(* The behaviour walks through every square, every direction or pair of    *)
(* directions and every occupancy of those lines; the invariants say that  *)
(* all builds compute what sliding means in ShogiRules (C14, and C01       *)
(* below the level of YasaiAlgo).                                          *)
(***************************************************************************)
EXTENDS ShogiRules, TLC

CONSTANT SQS      \* the squares looked at

VARIABLES s,      \* a square
          what,   \* what is computed: 0 nothing yet
          occ     \* the occupied squares that matter
vars == <<s, what, occ>>

Bit(q)   == IF q <= 63 THEN q - 1 ELSE q
Word(S)  == {Bit(q) : q \in S}
All64    == 0..63
Lo(W)    == {i \in W : i < 64}
Hi(W)    == {i - 64 : i \in {j \in W : j > 63}}
Join(lo, hi) == lo \cup {i + 64 : i \in hi}
BoardWord == Word(Squares)
Min(S)   == CHOOSE i \in S : \A j \in S : i <= j
Max(S)   == CHOOSE i \in S : \A j \in S : j <= i
Below(i) == 0..(i-1)
Shr(W, k, w) == {i - k : i \in {j \in W : j >= k}}
Shl(W, k, w) == {i + k : i \in {j \in W : j + k < w}}
Xor(A, B) == (A \ B) \cup (B \ A)

\* A - B modulo 2^w, bit by bit
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(A, B, w, i, borrow) ==
  IF i = w THEN {}
  ELSE LET a == IF i \in A THEN 1 ELSE 0
           b == (IF i \in B THEN 1 ELSE 0) + borrow
           d == a - b
       IN (IF d \in {1, -1} THEN {i} ELSE {}) \cup SubFrom(A, B, w, i + 1, IF d < 0 THEN 1 ELSE 0)
Sub(A, B, w) == SubFrom(A, B, w, 0, 0)
\* adding all ones is subtracting one
AddOnes64(A) == Sub(A, {0}, 64)

(***************************************************************************)
(* core.rs                                                                 *)
(***************************************************************************)
CorePositive(o, mask) ==
  LET tz == Min((o \cap mask) \cup {Bit(81)}) IN mask \cap Below(tz + 1)
CoreNegative(o, mask) ==
  LET top == Max((o \cap mask) \cup {Bit(1)}) IN mask \cap (BoardWord \ Below(top))
CorePositives(o, m1, m2) == CorePositive(o, m1) \cup CorePositive(o, m2)
CoreNegatives(o, m1, m2) == CoreNegative(o, m1) \cup CoreNegative(o, m2)

VacantMask == {Bit(Sq(f, 9)) : f \in 1..9}
FirstRank == {Bit(Sq(f, 1)) : f \in 1..9}
\* one subtraction over the whole word; shogi_core shifts each half, and masks
CoreVacant(pawns) ==
  LET d == Sub(VacantMask, pawns, 128)
      sh == Join(Shr(Lo(d), 8, 64), Shr(Hi(d), 8, 64)) \cap FirstRank
      x == Sub(VacantMask, sh, 128)
  IN Xor(VacantMask, x)

(***************************************************************************)
(* x86_64.rs                                                               *)
(***************************************************************************)
SimdPositiveConsecutive(o, mask) ==
  LET and == o \cap mask
      add == Join(AddOnes64(Lo(and)), AddOnes64(Hi(and)))
  IN Xor(and, add) \cap mask
Smear(A, w) == LET a == A \cup Shr(A, 1, w) IN LET b == a \cup Shr(a, 2, w) IN b \cup Shr(b, 4, w)
SimdNegativeConsecutive(o, mask) ==
  LET m == o \cap mask
      lo == Shr(Smear(Lo(m), 64), 1, 64)
      hi == Shr(Smear(Hi(m), 64), 1, 64)
  IN mask \ Join(lo, hi)

\* both directions are computed in the two halves of a word of 256 bits; the halves do
\* not touch, so each is shown by itself
Lane(o, mask) ==
  LET m   == o \cap mask
      al  == AddOnes64(Lo(m))
      ah  == AddOnes64(Hi(m))
      \* all ones where the quarter was not zero, moved from the low to the high quarter
      shh == IF al = All64 THEN {} ELSE All64
      dh  == Sub(ah, shh, 64)
  IN Xor(m, Join(al, dh)) \cap mask
SimdPositives(o, m1, m2) == Lane(o, m1) \cup Lane(o, m2)

Byte(W, i) == {b \in W : b \div 8 = i}
NonZeroBytes(W) == {i \in 0..15 : Byte(W, i) # {}}
\* MASKED_VALUES[i]: the i low bytes
LowBytes(i) == Below(8 * i)
Shr16(W, k) == {b - k : b \in {c \in W : c % 16 >= k}}
SimdLaneNeg(o, mask) ==
  LET m == o \cap mask
      e == LowBytes(Max(NonZeroBytes(m) \cup {0}))
      a == m \cup Shr16(m, 1)
      b == a \cup Shr16(a, 2)
      c == b \cup Shr16(b, 4)
  IN mask \ (Shr16(c, 1) \cup e)
SimdNegatives(o, m1, m2) == SimdLaneNeg(o, m1) \cup SimdLaneNeg(o, m2)
SimdVacant(pawns) ==
  LET half(vm, p) == LET sub == Sub(vm, p, 64)  sh == Shr(vm \cap sub, 8, 64) IN Xor(vm, Sub(vm, sh, 64))
  IN Join(half(Lo(VacantMask), Lo(pawns)), half(Hi(VacantMask), Hi(pawns)))

(***************************************************************************)
(* aarch64.rs, wasm32.rs                                                   *)
(***************************************************************************)
ArmPositive(o, mask) ==
  LET m == o \cap mask
      tz == IF Lo(m) = {} THEN Min(Hi(m) \cup {17}) + 64 ELSE Min(Lo(m))
  IN mask \cap Below(tz + 1)
ArmNegative(o, mask) ==
  LET m == o \cap mask
      top == IF Hi(m) = {} THEN Max(Lo(m) \cup {0}) ELSE Max(Hi(m)) + 64
  IN mask \ Below(top)
ArmPositives(o, m1, m2) == ArmPositive(o, m1) \cup ArmPositive(o, m2)
ArmNegatives(o, m1, m2) == ArmNegative(o, m1) \cup ArmNegative(o, m2)

(***************************************************************************)
(* The walk.  Directions whose squares have higher numbers are positive:   *)
(* S (5), SW (6), W (7), NW (8).                                           *)
(***************************************************************************)
Pairs == << <<8, 6>>, <<5, 7>>, <<2, 4>>, <<1, 3>> >>      \* as in tables.rs, up to order
RaySet(q, d) == {Ray[q][d][i] : i \in 1..Len(Ray[q][d])}
Stop(q, d, S) == LET r == Ray[q][d]
                     hit == {i \in 1..Len(r) : r[i] \in S}
                 IN {r[i] : i \in 1..(IF hit = {} THEN Len(r) ELSE Min(hit))}

Init == s \in SQS /\ what = 0 /\ occ = {}
Next == /\ what = 0 /\ s' = s
        /\ \/ \E w \in 1..4 : /\ what' = w
                              /\ \E A \in SUBSET RaySet(s, Pairs[w][1]), B \in SUBSET RaySet(s, Pairs[w][2]) : occ' = A \cup B
           \/ \* pawns: at most one on a file; two files at a time, the others all alike
              /\ what' = 5 /\ Rank[s] = 1
              /\ \E f \in 1..9, r \in 0..9, g \in 0..9, z \in 0..9 :
                   occ' = {Sq(h, IF h = f THEN r ELSE IF h = File[s] THEN g ELSE z) :
                             h \in {i \in 1..9 : (IF i = f THEN r ELSE IF i = File[s] THEN g ELSE z) # 0}}
Spec == Init /\ [][Next]_vars

PairOK ==
  what \in 1..4 =>
    LET d1 == Pairs[what][1]  d2 == Pairs[what][2]
        m1 == Word(RaySet(s, d1))  m2 == Word(RaySet(s, d2))  o == Word(occ)
        want == Word(Stop(s, d1, occ) \cup Stop(s, d2, occ))
    IN IF what \in {1, 2}
       THEN /\ CorePositives(o, m1, m2) = want
            /\ SimdPositives(o, m1, m2) = want
            /\ ArmPositives(o, m1, m2) = want
       ELSE /\ CoreNegatives(o, m1, m2) = want
            /\ SimdNegatives(o, m1, m2) = want
            /\ ArmNegatives(o, m1, m2) = want
\* a lance: along the file only
LanceOK ==
  /\ what = 2 => LET m == Word(RaySet(s, 5))  o == Word(occ)  want == Word(Stop(s, 5, occ)) IN
       CorePositive(o, m) = want /\ SimdPositiveConsecutive(o, m) = want
  /\ what = 4 => LET m == Word(RaySet(s, 1))  o == Word(occ)  want == Word(Stop(s, 1, occ)) IN
       CoreNegative(o, m) = want /\ SimdNegativeConsecutive(o, m) = want
VacantOK ==
  what = 5 => LET want == Word({q \in Squares : ~\E p \in occ : File[p] = File[q]}) IN
    /\ CoreVacant(Word(occ)) = want
    /\ SimdVacant(Word(occ)) = want
\* stepping a set of pawns: none is where it would leave the board or its half
StepOK ==
  what = 5 =>
    LET up == {q \in occ : Rank[q] > 1}  dn == {q \in occ : Rank[q] < 9} IN
    /\ Join(Shr(Lo(Word(up)), 1, 64), Shr(Hi(Word(up)), 1, 64)) = Word({q - 1 : q \in up})
    /\ Join(Shl(Lo(Word(dn)), 1, 64), Shl(Hi(Word(dn)), 1, 64)) = Word({q + 1 : q \in dn})
=============================================================================
