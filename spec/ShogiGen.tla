--------------------------------- MODULE ShogiGen ---------------------------------
(***************************************************************************)
(* Behaviours of Shogi.tla, for the real library to repeat.                *)
(*                                                                         *)
(* tlc -simulate walks through the machine from positions of several       *)
(* shapes; each walk of LEN calls is appended to the file OUT as one line  *)
(* of JSON: the calls, and for each what the library has to answer then.   *)
(***************************************************************************)
EXTENDS Shogi, Json, IOUtils, CSV, SequencesExt

CONSTANTS LEN

VARIABLES h      \* the calls made so far: a sequence of sequences of numbers
vars == <<objs, h>>

Pick(S) == RandomElement(S)
Odds(a, b) == Pick(1..b) <= a

(***************************************************************************)
(* Positions to begin with.                                                *)
(***************************************************************************)
Common == <<1,1,1,2,2,3,3,4,4,5,5,6,7,9,10,11,12,13,13,14,14>>
\* a square in line with s or a knight's move or a step away from it
Near(s) == LET r == Ray[s][Pick(Dirs)] IN IF r = <<>> THEN s ELSE r[Pick(1..Len(r))]

\* a set of shogi
Limit == <<18, 4, 4, 4, 4, 2, 2>>
OnBoard_(b, k) == Cardinality({s \in Squares : b[s] # 0 /\ CapturedAs[KindOf[b[s]]] = k})

RECURSIVE Scatter(_, _, _)
Scatter(b, ks, i) ==
  IF i = 0 THEN b
  ELSE LET s == IF Odds(1, 2) THEN Near(Pick(ks)) ELSE Pick(Squares)
           k == Common[Pick(1..Len(Common))]
           c == Pick(Colors)
       IN Scatter(IF b[s] # 0 \/ DeadEnd(k, c, s) \/ (k = Pawn /\ PawnOnFile(b, c, File[s]))
                     \/ OnBoard_(b, CapturedAs[k]) >= Limit[CapturedAs[k]] THEN b
                  ELSE [b EXCEPT ![s] = PieceOf(k, c)], ks, i - 1)
\* out of what the board and the other hand (g) leave
SomeHand(b, g) == TLCEval([k \in HandKinds |->      \* evaluated once
  LET n == Limit[k] - OnBoard_(b, k) - g[k] IN
  IF Odds(1, 2) THEN 0 ELSE IF Odds(1, 8) THEN n ELSE Min2(n, Pick(0..2))])
\* whose move it is: if possible not when the other side is in check
Fix(b, h2, c) == LET q == [b |-> b, h |-> h2, c |-> c, ply |-> 1] IN
                 IF ValidPos(q) THEN q ELSE [q EXCEPT !.c = Opp(c)]

RECURSIVE Candidate(_)
Candidate(i) ==
  LET s1 == Pick(Squares)  s2 == Pick(Squares \ {s1})
      ks == IF Odds(3, 4) THEN {1, 2} ELSE Pick({{}, {1}, {2}})
      e  == TLCEval([s \in Squares |-> IF s = s1 /\ 1 \in ks THEN PieceOf(King, 1)
                                       ELSE IF s = s2 /\ 2 \in ks THEN PieceOf(King, 2) ELSE 0])
      b  == Scatter(e, {s1, s2}, Pick(1..30))
      h1 == SomeHand(b, <<0,0,0,0,0,0,0>>)
      h2 == SomeHand(b, h1)
      q  == Fix(b, IF Odds(1, 2) THEN <<h1, h2>> ELSE <<h2, h1>>, Pick(Colors))
      r  == [q EXCEPT !.ply = IF Odds(1, 4) THEN Pick({2, 99, 255, 256, 1000, 30000, 60000}) ELSE 1]
  IN IF ValidPos(r) THEN r ELSE Candidate(i + 1)

BackRank == <<Lance, Knight, Silver, Gold, King, Gold, Silver, Knight, Lance>>
StartBoard ==
  [s \in Squares |->
     CASE Rank[s] = 1 -> PieceOf(BackRank[File[s]], White)
       [] Rank[s] = 9 -> PieceOf(BackRank[File[s]], Black)
       [] Rank[s] = 3 -> PieceOf(Pawn, White)
       [] Rank[s] = 7 -> PieceOf(Pawn, Black)
       [] s = Sq(8, 2) -> PieceOf(Rook, White)
       [] s = Sq(2, 2) -> PieceOf(Bishop, White)
       [] s = Sq(2, 8) -> PieceOf(Rook, Black)
       [] s = Sq(8, 8) -> PieceOf(Bishop, Black)
       [] OTHER -> 0]
StartPos == [b |-> StartBoard, h |-> EmptyHands, c |-> Black, ply |-> 1]

(***************************************************************************)
(* Calls, and the answers due after them: whether the side to move is in   *)
(* check, its moves, and those of them that give check.                    *)
(***************************************************************************)
Answers(p, L) == LET g == ChecksIn(p, L) IN
  <<IF InCheck(p) THEN 1 ELSE 0, Cardinality(L)>> \o SetToSeq(L) \o <<Cardinality(g)>> \o SetToSeq(g)

Say(x) == h' = Append(h, x)

Flat(p) == [s \in 1..NSQ |-> p.b[s]] \o p.h[1] \o p.h[2] \o <<p.c, p.ply>>
NewObj == \E o \in {Pick(1..2)} : \E q \in {IF Odds(1, 12) THEN StartPos ELSE Candidate(0)} :
          \E L \in {Legal(q)} :
            /\ New(o, q, [leg |-> L])
            /\ Say([op |-> "N", o |-> o, a |-> Flat(q), x |-> Answers(q, L)])
PlayOn(o) ==
  LET p == Top(o).p  L == Top(o).ob.leg
      sharp == {m \in L : p.b[MTo(m)] # 0 \/ IsPromo(m) \/ GivesCheck(p, m)}
  IN IF L = {} THEN NewObj
     ELSE \E m \in {IF Odds(1, 2) THEN IF sharp # {} THEN Pick(sharp) ELSE Pick(L) ELSE Pick(L)} :
          \E q \in {Apply(p, m)} : \E M \in {Legal(q)} :
               /\ DoMove(o, m, [leg |-> M])
               /\ Say([op |-> "D", o |-> o, a |-> <<m>>, x |-> Answers(q, M)])
Back(o) == UndoMove(o) /\ Say([op |-> "U", o |-> o, a |-> <<>>, x |-> <<>>])
Copy(o) == CloneTo(o, 3 - o) /\ Say([op |-> "C", o |-> o, a |-> <<3 - o>>, x |-> <<>>])
Ask(o)  == Query(o) /\ Say([op |-> "Q", o |-> o, a |-> <<>>, x |-> <<>>])

Init == MachineInit /\ h = <<>>
Step(z, o) == IF ~Exists(o) \/ z <= 10 THEN NewObj
              ELSE IF z <= 70 \/ Depth(o) = 1 THEN PlayOn(o)
              ELSE IF z <= 88 THEN Back(o)
              ELSE IF z <= 94 THEN Copy(o)
              ELSE Ask(o)
Next == /\ Len(h) < LEN
        /\ \E z \in {Pick(1..100)} : \E o \in {Pick(1..2)} : Step(z, o)
        /\ Len(h') = LEN => CSVWrite("%1$s", <<ToJson(h')>>, IOEnv.OUT)
Spec == Init /\ [][Next]_vars
=============================================================================
