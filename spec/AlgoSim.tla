--------------------------------- MODULE AlgoSim ---------------------------------
(***************************************************************************)
(* AlgoMC by random walks (tlc -simulate): boards of any size, crowded     *)
(* with pieces, and games of some length from there.                       *)
(***************************************************************************)
EXTENDS AlgoMC

CONSTANTS PIECES,     \* at most so many pieces besides the kings
          PLIES       \* moves played before a new position is made

Pick(S) == RandomElement(S)
Real(c, x, s) == ~DeadEnd(x, c, s)

RECURSIVE Scatter(_, _)
Scatter(b, i) ==
  IF i = 0 THEN b
  ELSE LET s == Pick(Squares)  x == Pick(BAG)  c == Pick(Colors) IN
       Scatter(IF b[s] # 0 \/ DeadEnd(x, c, s) THEN b ELSE [b EXCEPT ![s] = PieceOf(x, c)], i - 1)

RandomHand(i) == TLCEval([k \in HandKinds |-> IF k \in HANDBAG /\ Pick(1..2) = 1 THEN Pick(0..2) ELSE 0])   \* evaluated once

\* one at random: yasai is followed from a fresh position on
Set_ == \E ks \in {Pick(KINGSETS)} : \E s1 \in {Pick(Squares)} : \E s2 \in {Pick(Squares \ {s1})} :
          \E j \in {Pick(0..PIECES)} : \E c \in {Pick(Colors)} :
          LET e == [s \in Squares |-> IF s = s1 /\ 1 \in ks THEN PieceOf(King, 1)
                                      ELSE IF s = s2 /\ 2 \in ks THEN PieceOf(King, 2) ELSE 0]
          IN \E b \in {Scatter(e, j)} : \E h1 \in {RandomHand(1)} : \E h2 \in {RandomHand(2)} :
             LET q == [b |-> b, h |-> <<h1, h2>>, c |-> c, ply |-> 1] IN
             IF ValidPos(q) THEN p' = q /\ n' = 1 /\ o' = NewObj(q)
             ELSE p' = p /\ n' = 0 /\ o' = o

\* capture or check where there is one, every other time
Play == LET L == Legal(p) IN
        IF L = {} THEN n' = 0 /\ p' = p /\ o' = o
        ELSE LET sharp == {m \in L : p.b[MTo(m)] # 0 \/ GivesCheck(p, m)} IN
             \E m \in {IF sharp # {} /\ Pick(1..2) = 1 THEN Pick(sharp) ELSE Pick(L)} :
               /\ p' = Apply(p, m) /\ o' = AlgoDo(o, m) /\ n' = n + 1

SimInit == Init
SimNext == \/ n \in {0, PLIES + 1} /\ Set_
           \/ n \in 1..PLIES /\ Play
SimSpec == SimInit /\ [][SimNext]_vars
=============================================================================
