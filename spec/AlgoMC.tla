--------------------------------- MODULE AlgoMC ---------------------------------
(***************************************************************************)
(* yasai's algorithms against the rules: the machine of YasaiAlgo and the  *)
(* position it is meant to show, moved in step over every small board.     *)
(***************************************************************************)
EXTENDS YasaiAlgo

CONSTANTS EXTRA, BAG, HANDBAG, KINGSETS, DEPTH

VARIABLES p,      \* the position by the rules
          o,      \* yasai's object
          n
vars == <<p, o, n>>
\* setting up, as in ShogiMC
M == INSTANCE ShogiMC

NoObj == [inner |-> 0, states |-> <<>>]
Init == M!Init /\ o = NoObj
Next == \/ n = 0 /\ (M!AddKings \/ M!AddPiece) /\ n' = 0 /\ o' = o
        \/ n = 0 /\ M!Ready /\ n' = 1 /\ o' = NewObj(p')
        \/ n \in 1..DEPTH /\ n' = n + 1 /\ \E m \in Legal(p) : p' = Apply(p, m) /\ o' = AlgoDo(o, m)
Spec == Init /\ [][Next]_vars

\* what the public calls show
Shown(x) == [b |-> x.inner.board, h |-> x.inner.hands, c |-> x.inner.side, ply |-> x.inner.ply]

StateOK(x, q) ==
  /\ Shown(x) = q
  /\ x.inner = FromPartial(q)
  /\ TopS(x).ai = NewObj(q).states[1].ai
  /\ TopS(x).keys = NewObj(q).states[1].keys
Judged(P) == n > 0 => P
Repr     == Judged(StateOK(o, p))                                           \* C09, C11, C12, C18
Checkers == Judged(TopS(o).ai.checkers = {s \in Squares : p.b[s] # 0 /\ ColOf[p.b[s]] # p.c
                                            /\ KingSq(p.b, p.c) \in Reach(p.b, s)})   \* C07
Moves_   == Judged(AlgoLegal(o) = Legal(p))                                 \* C01..C06, C19
Asks     == Judged(\A m \in Legal(p) : IsCheckMove(o, m) <=> GivesCheck(p, m))       \* C08
\* every move, played and taken back: the object is what it was      C10
Undo     == Judged(\A m \in Legal(p) : AlgoUndo(AlgoDo(o, m), m) = o)
\* the keys tell positions apart: tokens can be read back            C13
KeyReads == Judged(LET k == TopS(o).keys IN
              /\ \A s \in Squares : \A x \in Pieces : (100*s + x \in k[1]) <=> (p.b[s] = x)
              /\ ((0 \in k[1]) <=> (p.c = White))
              /\ \A c \in Colors, h \in HandKinds : p.h[c][h] = Cardinality({i \in 0..20 : 10000*(1 + 10*c + h) + i \in k[2]}))
\* pseudo-legal moves are what the move list has to have room for    C15
Room     == Judged(Cardinality(AlgoGen(o)) <= 593)
=============================================================================
