--------------------------------- MODULE ShogiMC ---------------------------------
(***************************************************************************)
(* The rules, checked against themselves, exhaustively on small boards.    *)
(*                                                                         *)
(* Init enumerates every position that can be made of the two kings (or    *)
(* one, or none) and up to EXTRA other pieces of the kinds in BAG, with    *)
(* the hands in HANDBAG; Next plays every legal move from each, up to      *)
(* DEPTH moves.  The invariants are what the properties rest on:           *)
(*  - the definitions used to judge traces are the plain ones;             *)
(*  - legal play preserves everything C22 lists;                           *)
(*  - the rules treat the two sides, and left and right, alike (C17).      *)
(***************************************************************************)
EXTENDS ShogiRules, TLC

CONSTANTS EXTRA,      \* pieces other than kings
          BAG,        \* their kinds
          HANDBAG,    \* kinds of which a hand may hold one
          KINGSETS,   \* which kings are there: a set of sets of colours
          DEPTH

VARIABLES p,     \* the position
          n      \* 0: being set up; i > 0: i-1 moves have been played
vars == <<p, n>>

EmptyBoard == [s \in Squares |-> 0]
Kinged == {s \in Squares : p.b[s] # 0 /\ KindOf[p.b[s]] = King}
Extras == {s \in Squares : p.b[s] # 0 /\ KindOf[p.b[s]] # King}

\* Setting up is part of the behaviour, so that it is done by all workers.  Pieces are put
\* down in the order of their squares: every board is reached in one way.
Init == n = 0 /\ p = [b |-> EmptyBoard, h |-> EmptyHands, c |-> Black, ply |-> 1]
AddKings == /\ Kinged = {} /\ Extras = {}
            /\ \E ks \in KINGSETS : \E s1, s2 \in Squares :
                 /\ s1 # s2
                 /\ 1 \in ks \/ s1 = (IF s2 = 1 THEN 2 ELSE 1)
                 /\ 2 \in ks \/ s2 = (IF s1 = 1 THEN 2 ELSE 1)
                 /\ p' = [p EXCEPT !.b = [s \in Squares |->
                             IF s = s1 /\ 1 \in ks THEN PieceOf(King, 1)
                             ELSE IF s = s2 /\ 2 \in ks THEN PieceOf(King, 2) ELSE 0],
                                   !.ply = 2]
AddPiece == /\ p.ply = 2 /\ Cardinality(Extras) < EXTRA
            /\ \E s \in Squares, x \in BAG, c \in Colors :
                 /\ p.b[s] = 0 /\ \A t \in Extras : t < s
                 /\ ~DeadEnd(x, c, s)
                 /\ p' = [p EXCEPT !.b[s] = PieceOf(x, c)]
Hands1 == {<<0,0,0,0,0,0,0>>} \cup {[<<0,0,0,0,0,0,0>> EXCEPT ![k] = 1] : k \in HANDBAG}
Ready == /\ p.ply = 2
         /\ \E h1, h2 \in Hands1, c \in Colors :
              LET q == [b |-> p.b, h |-> <<h1, h2>>, c |-> c, ply |-> 1] IN ValidPos(q) /\ p' = q
Next == \/ n = 0 /\ (AddKings \/ AddPiece) /\ n' = 0
        \/ n = 0 /\ Ready /\ n' = 1
        \/ n \in 1..DEPTH /\ n' = n + 1 /\ \E m \in Legal(p) : p' = Apply(p, m)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Definitions used for evaluation agree with the plain ones.              *)
(***************************************************************************)
AttackedOK == n > 0 => \A s \in Squares, c \in Colors : Attacked(p.b, s, c) <=> AttackedDef(p.b, s, c)

AllMoves == {BoardMove(f, t, pr) : f \in Squares, t \in Squares, pr \in 0..1}
            \cup {DropMove(k, t) : k \in HandKinds, t \in Squares}

\* legality, said once more from scratch: what a player may do
PlainLegal(m) ==
  IF IsDrop(m) THEN
    LET k == MKind(m)  to == MTo(m)  b2 == [p.b EXCEPT ![to] = PieceOf(k, p.c)] IN
    /\ p.h[p.c][k] > 0
    /\ p.b[to] = 0
    /\ k \in {Pawn, Lance} => RelRank[to][p.c] > 1
    /\ k = Knight => RelRank[to][p.c] > 2
    /\ k = Pawn => ~\E s \in Squares : File[s] = File[to] /\ p.b[s] = PieceOf(Pawn, p.c)
    /\ ~\E s \in Squares : b2[s] = PieceOf(King, p.c) /\ AttackedDef(b2, s, Opp(p.c))
    \* a pawn must not be dropped to mate
    /\ ~(k = Pawn /\ LET q == Apply(p, m) IN InCheck(q) /\ Legal(q) = {})
  ELSE
    LET f == MFrom(m)  to == MTo(m)  x == p.b[f] IN
    /\ x # 0
    /\ ColOf[x] = p.c
    /\ to \in Reach(p.b, f)
    /\ p.b[to] # 0 => ColOf[p.b[to]] # p.c
    /\ IsPromo(m) => /\ PromoteTo[KindOf[x]] # 0
                     /\ RelRank[f][p.c] <= ZONE \/ RelRank[to][p.c] <= ZONE
    /\ ~IsPromo(m) => ~DeadEnd(KindOf[x], p.c, to)
    /\ LET b2 == BoardAfter(p.b, p.c, m) IN
       ~\E s \in Squares : b2[s] = PieceOf(King, p.c) /\ AttackedDef(b2, s, Opp(p.c))

LegalOK == n > 0 => LET L == Legal(p) IN
  /\ L = {m \in AllMoves : PlainLegal(m)}
  /\ \A m \in AllMoves : IsLegal(p, m) <=> m \in L

(***************************************************************************)
(* Legal play preserves what C22 says.                                     *)
(***************************************************************************)
PreservedOK == n > 0 => \A m \in Legal(p) : LET q == Apply(p, m) IN
  /\ ValidPos(q)
  /\ \A k \in HandKinds : Material(q, k) = Material(p, k)
  /\ \A c \in Colors : (KingSq(p.b, c) = 0) = (KingSq(q.b, c) = 0)
  /\ q.c = Opp(p.c) /\ q.ply = p.ply + 1
  /\ q # p

\* a move says how to take it back
UndoOf(q, m, cap) ==
  LET c == Opp(q.c) IN
  IF IsDrop(m) THEN [b |-> [q.b EXCEPT ![MTo(m)] = 0],
                     h |-> [q.h EXCEPT ![c][MKind(m)] = @ + 1], c |-> c, ply |-> q.ply - 1]
  ELSE LET x == q.b[MTo(m)]
           y == IF IsPromo(m) THEN PieceOf(CHOOSE k \in Kinds : PromoteTo[k] = KindOf[x], c) ELSE x IN
       [b |-> [q.b EXCEPT ![MTo(m)] = cap, ![MFrom(m)] = y],
        h |-> IF cap = 0 THEN q.h ELSE [q.h EXCEPT ![c][CapturedAs[KindOf[cap]]] = @ - 1],
        c |-> c, ply |-> q.ply - 1]
UndoOK == n > 0 => \A m \in Legal(p) : UndoOf(Apply(p, m), m, p.b[MTo(m)]) = p

(***************************************************************************)
(* Check and mate.                                                         *)
(***************************************************************************)
CheckOK == n > 0 => LET L == Legal(p) IN
  \A m \in L : GivesCheck(p, m) <=> InCheck(Apply(p, m))
KingsOff == n > 0 => \A c \in Colors : KingSq(p.b, c) = 0 => ~KingAttacked(p.b, c)

(***************************************************************************)
(* C17                                                                     *)
(***************************************************************************)
SymOK == n > 0 =>
  LET L == Legal(p)  t == TurnPos(p)  r == MirrorPos(p) IN
  /\ Legal(t) = {TurnMove(m) : m \in L}
  /\ Legal(r) = {MirrorMove(m) : m \in L}
  /\ InCheck(t) = InCheck(p) /\ InCheck(r) = InCheck(p)
  /\ Checks(t) = {TurnMove(m) : m \in Checks(p)}
  /\ Checks(r) = {MirrorMove(m) : m \in Checks(p)}
  /\ \A m \in L : Apply(t, TurnMove(m)) = TurnPos(Apply(p, m))
  /\ \A m \in L : Apply(r, MirrorMove(m)) = MirrorPos(Apply(p, m))
  /\ TurnPos(t) = p /\ MirrorPos(r) = p

(***************************************************************************)
(* The parts into which C02..C06 cut the list of legal moves make it up.   *)
(***************************************************************************)
PartsOK == n > 0 => LET L == Legal(p) IN
  /\ \A m \in L : SafeMove(p, m)
  /\ L = {m \in Pseudo(p) : SafeMove(p, m) /\ ~PawnDropMate(p, m)}
=============================================================================
