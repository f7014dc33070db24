------------------------------ MODULE ShogiRules ------------------------------
(***************************************************************************)
(* The rules of shogi, as a side-effect free library of operators over an  *)
(* abstract position.  The board size (NF files x NR ranks) and the depth  *)
(* of the promotion zone are constants, so that the same text is used      *)
(*   - with 9 x 9 / 3 to judge traces of the real code, and                *)
(*   - with small boards for exhaustive model checking.                    *)
(*                                                                         *)
(* Nothing here is shaped like yasai: no bitboards, no incremental attack  *)
(* information.  A position is                                             *)
(*   [b |-> board, h |-> hands, c |-> side to move, ply |-> number]        *)
(*     b : square -> piece code (0 = empty)                                *)
(*     h : <<hand of Black, hand of White>>, each a 7-tuple of counts      *)
(*     c : 1 = Black (sente), 2 = White (gote)                             *)
(* Squares are 1..NF*NR, file-major as in shogi_core:                      *)
(*     sq = (file-1)*NR + rank ; rank 1 is the top rank ("a").             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NF, NR, ZONE

NSQ      == NF * NR
Squares  == 1..NSQ
File     == [s \in Squares |-> ((s-1) \div NR) + 1]
Rank     == [s \in Squares |-> ((s-1) % NR) + 1]
Sq(f, r) == (f-1)*NR + r
OnBoard(f, r) == f \in 1..NF /\ r \in 1..NR

Black  == 1
White  == 2
Colors == 1..2
Opp(c) == 3 - c

(***************************************************************************)
(* Piece kinds and piece codes.                                            *)
(***************************************************************************)
Pawn == 1    Lance == 2    Knight == 3   Silver == 4   Gold == 5
Bishop == 6  Rook == 7     King == 8
ProPawn == 9     ProLance == 10  ProKnight == 11  ProSilver == 12
ProBishop == 13  ProRook == 14

Kinds     == 1..14
HandKinds == 1..7
NK        == 14
PieceOf(k, c) == k + NK*(c-1)
Pieces    == 1..(2*NK)
KindOf    == [p \in Pieces |-> ((p-1) % NK) + 1]
ColOf     == [p \in Pieces |-> ((p-1) \div NK) + 1]

\* what a kind promotes to (0: it does not promote)
PromoteTo   == <<ProPawn, ProLance, ProKnight, ProSilver, 0, ProBishop, ProRook,
                 0, 0, 0, 0, 0, 0, 0>>
\* what a kind becomes when it is captured (0: it can not be captured)
CapturedAs  == <<Pawn, Lance, Knight, Silver, Gold, Bishop, Rook,
                 0, Pawn, Lance, Knight, Silver, Bishop, Rook>>
CanPromote(k) == PromoteTo[k] # 0

(***************************************************************************)
(* Directions: 1..8 = N NE E SE S SW W NW, as seen on the diagram with     *)
(* Black at the bottom.  File 1 is at the right edge, so E is file-1.      *)
(***************************************************************************)
Dirs == 1..8
DirF == << 0, -1, -1, -1,  0,  1,  1,  1>>
DirR == <<-1, -1,  0,  1,  1,  1,  0, -1>>
Turn(d) == ((d+3) % 8) + 1            \* the opposite direction

\* Movement of a Black piece in each direction: 0 not at all, 1 one step, 2 any
\* number of steps.  (The knight's jump is separate.)
BlackMoves ==
 << <<1,0,0,0,0,0,0,0>>,   \* pawn
    <<2,0,0,0,0,0,0,0>>,   \* lance
    <<0,0,0,0,0,0,0,0>>,   \* knight
    <<1,1,0,1,0,1,0,1>>,   \* silver
    <<1,1,1,0,1,0,1,1>>,   \* gold
    <<0,2,0,2,0,2,0,2>>,   \* bishop
    <<2,0,2,0,2,0,2,0>>,   \* rook
    <<1,1,1,1,1,1,1,1>>,   \* king
    <<1,1,1,0,1,0,1,1>>,   \* promoted pawn
    <<1,1,1,0,1,0,1,1>>,   \* promoted lance
    <<1,1,1,0,1,0,1,1>>,   \* promoted knight
    <<1,1,1,0,1,0,1,1>>,   \* promoted silver
    <<1,2,1,2,1,2,1,2>>,   \* promoted bishop (horse)
    <<2,1,2,1,2,1,2,1>> >> \* promoted rook   (dragon)

\* White's pieces move as Black's turned by 180 degrees.
Moves == [p \in Pieces |->
            IF ColOf[p] = Black THEN BlackMoves[KindOf[p]]
            ELSE [d \in Dirs |-> BlackMoves[KindOf[p]][Turn(d)]]]

RECURSIVE RayFrom(_, _, _)
RayFrom(f, r, d) ==
  LET f2 == f + DirF[d]  r2 == r + DirR[d]
  IN  IF OnBoard(f2, r2) THEN <<Sq(f2, r2)>> \o RayFrom(f2, r2, d) ELSE <<>>

\* Ray[s][d]: the squares met when leaving s in direction d, nearest first.
Ray == [s \in Squares |-> [d \in Dirs |-> RayFrom(File[s], Rank[s], d)]]

\* KnightTo[s][c]: where a knight of colour c on s jumps to.
KnightTo ==
  [s \in Squares |-> [c \in Colors |->
     LET r2 == IF c = Black THEN Rank[s] - 2 ELSE Rank[s] + 2
     IN  {Sq(f2, r2) : f2 \in {f \in {File[s]-1, File[s]+1} : OnBoard(f, r2)}}]]

\* Rank as seen by colour c: 1 is the far rank.
RelRank == [s \in Squares |-> [c \in Colors |-> IF c = Black THEN Rank[s] ELSE NR + 1 - Rank[s]]]
InZone  == [s \in Squares |-> [c \in Colors |-> RelRank[s][c] <= ZONE]]

\* A piece of this kind could never move again from s.
DeadEnd(k, c, s) ==
  \/ k \in {Pawn, Lance} /\ RelRank[s][c] = 1
  \/ k = Knight          /\ RelRank[s][c] <= 2

(***************************************************************************)
(* Attacks.                                                                *)
(***************************************************************************)
\* How far the ray can be followed on board b from its i-th square on before
\* it is stopped: the index of the first occupied square, or Len+1.
RECURSIVE FirstHit(_, _, _)
FirstHit(b, ray, i) ==
  IF i > Len(ray) THEN i ELSE IF b[ray[i]] # 0 THEN i ELSE FirstHit(b, ray, i+1)

Min2(x, y) == IF x < y THEN x ELSE y

\* Squares attacked by the piece on s (it may stand there or capture there,
\* whoever owns a piece on it).
Reach(b, s) ==
  LET p == b[s] IN
    (IF KindOf[p] = Knight THEN KnightTo[s][ColOf[p]] ELSE {})
    \cup UNION { LET ray == Ray[s][d] IN
                 LET n == IF Moves[p][d] = 1 THEN Min2(1, Len(ray))
                          ELSE Min2(FirstHit(b, ray, 1), Len(ray))
                 IN  {ray[i] : i \in 1..n}
                 : d \in {e \in Dirs : Moves[p][e] # 0} }

\* The definition: s is attacked by colour c if some piece of c reaches it.
AttackedDef(b, s, c) == \E t \in Squares : b[t] # 0 /\ ColOf[b[t]] = c /\ s \in Reach(b, t)

\* An evaluation-friendly form, looking outward from s. MC checks that the two agree.
Attacked(b, s, c) ==
  \/ \E d \in Dirs :
       LET ray == Ray[s][d] IN LET i == FirstHit(b, ray, 1) IN
         /\ i <= Len(ray)
         /\ LET p == b[ray[i]] IN
              /\ ColOf[p] = c
              /\ LET m == Moves[p][Turn(d)] IN m = 2 \/ (m = 1 /\ i = 1)
  \/ \E t \in KnightTo[s][Opp(c)] : b[t] = PieceOf(Knight, c)

\* The square of c's king; 0 if c has none.
KingSq(b, c) ==
  LET k == PieceOf(King, c) IN
    IF \E s \in Squares : b[s] = k THEN CHOOSE s \in Squares : b[s] = k ELSE 0

\* c's king is attacked. A side without a king is never in check.
KingAttacked(b, c) ==
  LET k == KingSq(b, c) IN k # 0 /\ Attacked(b, k, Opp(c))

(***************************************************************************)
(* Moves, as numbers:                                                      *)
(*   from*100 + to            board move                                   *)
(*   10000 + from*100 + to    board move with promotion                    *)
(*   20000 + kind*100 + to    drop                                         *)
(***************************************************************************)
BoardMove(from, to, pr) == 10000*pr + from*100 + to
DropMove(k, to)         == 20000 + k*100 + to
IsDrop(m)    == m >= 20000
IsPromo(m)   == m >= 10000 /\ m < 20000
MTo(m)       == m % 100
MFrom(m)     == (m \div 100) % 100
MKind(m)     == (m \div 100) % 100

\* May/must the piece moving from -> to promote?  The set of allowed flags.
PromoFlags(p, from, to) ==
  LET k == KindOf[p]  c == ColOf[p] IN
    IF CanPromote(k) /\ (InZone[from][c] \/ InZone[to][c])
    THEN IF DeadEnd(k, c, to) THEN {1} ELSE {0, 1}
    ELSE {0}

\* Moves of the piece on `from`, its own king's safety aside.
PieceMoves(b, c, from) ==
  UNION { {BoardMove(from, to, pr) : pr \in PromoFlags(b[from], from, to)}
          : to \in {t \in Reach(b, from) : b[t] = 0 \/ ColOf[b[t]] # c} }

PawnOnFile(b, c, f) == \E r \in 1..NR : b[Sq(f, r)] = PieceOf(Pawn, c)

DropTargets(b, c, k, empties) ==
  {s \in empties : /\ ~DeadEnd(k, c, s)
                   /\ k = Pawn => ~PawnOnFile(b, c, File[s])}

PseudoBoard(p) ==
  UNION {PieceMoves(p.b, p.c, s) : s \in {t \in Squares : p.b[t] # 0 /\ ColOf[p.b[t]] = p.c}}
PseudoDrops(p) ==
  LET empties == {s \in Squares : p.b[s] = 0} IN
  UNION {{DropMove(k, s) : s \in DropTargets(p.b, p.c, k, empties)}
         : k \in {j \in HandKinds : p.h[p.c][j] > 0}}
Pseudo(p) == PseudoBoard(p) \cup PseudoDrops(p)

\* The board after the mover (colour c) has made m.
BoardAfter(b, c, m) ==
  IF IsDrop(m) THEN [b EXCEPT ![MTo(m)] = PieceOf(MKind(m), c)]
  ELSE LET p == b[MFrom(m)] IN
       [b EXCEPT ![MFrom(m)] = 0,
                 ![MTo(m)] = IF IsPromo(m) THEN PieceOf(PromoteTo[KindOf[p]], c) ELSE p]

\* Both hands after m.
HandsAfter(b, h, c, m) ==
  IF IsDrop(m) THEN [h EXCEPT ![c][MKind(m)] = @ - 1]
  ELSE IF b[MTo(m)] # 0 THEN [h EXCEPT ![c][CapturedAs[KindOf[b[MTo(m)]]]] = @ + 1]
  ELSE h

\* The transition of the game.
Apply(p, m) ==
  [b   |-> BoardAfter(p.b, p.c, m),
   h   |-> HandsAfter(p.b, p.h, p.c, m),
   c   |-> Opp(p.c),
   ply |-> p.ply + 1]

InCheck(p) == KingAttacked(p.b, p.c)

\* m leaves the mover's own king safe
SafeMove(p, m) == ~KingAttacked(BoardAfter(p.b, p.c, m), p.c)
\* m attacks the other king
GivesCheck(p, m) == KingAttacked(BoardAfter(p.b, p.c, m), Opp(p.c))

\* The same two questions with the king squares known (ks: <<Black's, White's>>).
KingSqs(b) == <<KingSq(b, Black), KingSq(b, White)>>
SafeMoveK(p, ks, m) ==
  \/ ks[p.c] = 0
  \/ ~Attacked(BoardAfter(p.b, p.c, m), IF ~IsDrop(m) /\ MFrom(m) = ks[p.c] THEN MTo(m) ELSE ks[p.c], Opp(p.c))
GivesCheckK(p, ks, m) ==
  /\ ks[Opp(p.c)] # 0
  /\ Attacked(BoardAfter(p.b, p.c, m), ks[Opp(p.c)], p.c)

\* No reply gets the side to move out of check. (A drop of a pawn that mates can
\* never be such a reply to the contact check this is used for.)
NoEscape(p) == LET ks == KingSqs(p.b) IN ~\E m \in Pseudo(p) : SafeMoveK(p, ks, m)

IsPawnDrop(m) == IsDrop(m) /\ MKind(m) = Pawn

\* uchifuzume: dropping a pawn so that it mates at once
PawnDropMate(p, m) == /\ IsPawnDrop(m)
                      /\ GivesCheck(p, m)
                      /\ NoEscape(Apply(p, m))

IsLegalPseudo(p, m) == SafeMove(p, m) /\ ~PawnDropMate(p, m)

Legal(p) == LET ks == KingSqs(p.b) IN
  {m \in Pseudo(p) : SafeMoveK(p, ks, m) /\ ~(IsPawnDrop(m) /\ GivesCheckK(p, ks, m) /\ NoEscape(Apply(p, m)))}

\* m \in Legal(p), without building the set
IsLegal(p, m) ==
  /\ IF IsDrop(m)
     THEN /\ MKind(m) \in HandKinds /\ MTo(m) \in Squares
          /\ p.h[p.c][MKind(m)] > 0
          /\ MTo(m) \in DropTargets(p.b, p.c, MKind(m), {s \in {MTo(m)} : p.b[s] = 0})
     ELSE /\ MFrom(m) \in Squares /\ MTo(m) \in Squares
          /\ p.b[MFrom(m)] # 0 /\ ColOf[p.b[MFrom(m)]] = p.c
          /\ m \in PieceMoves(p.b, p.c, MFrom(m))
  /\ IsLegalPseudo(p, m)

ChecksIn(p, L) == LET ks == KingSqs(p.b) IN {m \in L : GivesCheckK(p, ks, m)}
Checks(p) == ChecksIn(p, Legal(p))

Mated(p)     == InCheck(p) /\ Legal(p) = {}
NoMoves(p)   == Legal(p) = {}

\* The number of lines of play of length d.
RECURSIVE SumOver(_, _, _)
RECURSIVE Perft(_, _)
SumOver(S, p, d) ==
  IF S = {} THEN 0 ELSE LET m == CHOOSE x \in S : TRUE IN Perft(Apply(p, m), d) + SumOver(S \ {m}, p, d)
Perft(p, d) == IF d = 0 THEN 1
               ELSE IF d = 1 THEN Cardinality(Legal(p))
               ELSE SumOver(Legal(p), p, d - 1)

(***************************************************************************)
(* Positions a game (or a tsume problem) can show.                         *)
(***************************************************************************)
ColourPieces(b, k, c) == {s \in Squares : b[s] = PieceOf(k, c)}
NoTwoPawns(b)  == \A c \in Colors : \A f \in 1..NF :
                    Cardinality({r \in 1..NR : b[Sq(f, r)] = PieceOf(Pawn, c)}) <= 1
NoDeadPiece(b) == \A s \in Squares : b[s] # 0 => ~DeadEnd(KindOf[b[s]], ColOf[b[s]], s)
KingsOK(b)     == \A c \in Colors : Cardinality(ColourPieces(b, King, c)) <= 1
OpponentSafe(p) == ~KingAttacked(p.b, Opp(p.c))
\* how many pieces count as kind k (a captured kind) on board and in both hands
Material(p, k) == Cardinality({s \in Squares : p.b[s] # 0 /\ CapturedAs[KindOf[p.b[s]]] = k})
                  + p.h[1][k] + p.h[2][k]

ValidPos(p) == NoTwoPawns(p.b) /\ NoDeadPiece(p.b) /\ KingsOK(p.b) /\ OpponentSafe(p)

(***************************************************************************)
(* Symmetries.                                                             *)
(***************************************************************************)
TurnSq(s)   == NSQ + 1 - s                              \* rotate by 180 degrees
MirrorSq(s) == Sq(NF + 1 - File[s], Rank[s])            \* reflect left/right
SwapCol(x)  == IF x = 0 THEN 0 ELSE PieceOf(KindOf[x], Opp(ColOf[x]))
TurnPos(p)  == [b |-> [s \in Squares |-> SwapCol(p.b[TurnSq(s)])],
                h |-> <<p.h[2], p.h[1]>>, c |-> Opp(p.c), ply |-> p.ply]
MirrorPos(p) == [p EXCEPT !.b = [s \in Squares |-> p.b[MirrorSq(s)]]]
MapMove(m, F(_)) == IF IsDrop(m) THEN DropMove(MKind(m), F(MTo(m)))
                    ELSE BoardMove(F(MFrom(m)), F(MTo(m)), IF IsPromo(m) THEN 1 ELSE 0)
TurnMove(m)   == MapMove(m, TurnSq)
MirrorMove(m) == MapMove(m, MirrorSq)

EmptyHands == <<<<0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0>>>>
=============================================================================
