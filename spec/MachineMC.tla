-------------------------------- MODULE MachineMC --------------------------------
(***************************************************************************)
(* The machine a user sees, Shogi.tla, on a small board: several objects,  *)
(* every sequence of calls from a handful of positions, to a bounded       *)
(* depth.                                                                  *)
(***************************************************************************)
EXTENDS Shogi

CONSTANT MAXDEPTH

E0 == [s \in Squares |-> 0]
At(s, x, b) == [b EXCEPT ![s] = x]
\* kings in opposite corners, and something to play with
Kings2 == At(1, PieceOf(King, 2), At(NSQ, PieceOf(King, 1), E0))
Hand(k) == [EmptyHands[1] EXCEPT ![k] = 1]
Roots ==
  {q \in { [b |-> At(2, PieceOf(Rook, 1), Kings2), h |-> EmptyHands, c |-> Black, ply |-> 1],
           [b |-> At(Sq(2, 2), PieceOf(Pawn, 2), Kings2), h |-> <<Hand(Pawn), Hand(Gold)>>, c |-> White, ply |-> 7],
           [b |-> At(Sq(2, 2), PieceOf(ProPawn, 1), Kings2), h |-> EmptyHands, c |-> White, ply |-> 1],
           [b |-> At(NSQ, PieceOf(King, 1), At(1, PieceOf(Knight, 1), E0)), h |-> <<Hand(Pawn), EmptyHands[1]>>, c |-> Black, ply |-> 2],
           [b |-> At(5, PieceOf(Bishop, 1), E0), h |-> <<Hand(Lance), Hand(Pawn)>>, c |-> White, ply |-> 1] }
   : ValidPos(q)}

Init == MachineInit
Next == \E o \in 1..MAXOBJ :
          \/ ~Exists(o) /\ \E q \in Roots : New(o, q, NoOb)
          \/ Exists(o) /\ Depth(o) < MAXDEPTH /\ \E m \in Legal(Top(o).p) : DoMove(o, m, NoOb)
          \/ UndoMove(o)
          \/ \E n \in 1..MAXOBJ \ {o} : CloneTo(o, n)
          \/ Query(o)
Spec == Init /\ [][Next]_objs

\* C22: ReachableOK, of Shogi.tla

\* C09, C11, C18: what an object shows is the moves applied to what it was made with
RECURSIVE Fold(_, _)
Fold(stack, i) == IF i = 1 THEN stack[1].p ELSE Apply(Fold(stack, i-1), stack[i].m)
FoldOK == \A o \in 1..MAXOBJ : Exists(o) => Top(o).p = Fold(objs[o], Depth(o)) /\ objs[o][1].p \in Roots

\* C10: a move and its take-back lead to where one was
BackOK == \A o \in 1..MAXOBJ : Exists(o) /\ Depth(o) < MAXDEPTH =>
            \A m \in Legal(Top(o).p) :
              LET s == Append(objs[o], Node(Apply(Top(o).p, m), m, NoOb)) IN SubSeq(s, 1, Len(s) - 1) = objs[o]

\* C16: a call changes the object it is made on (a clone: the new one), no other, and by one node
OneAtATime == [][/\ Cardinality({o \in 1..MAXOBJ : objs'[o] # objs[o]}) <= 1
                 /\ \A o \in 1..MAXOBJ : objs'[o] # objs[o] =>
                      \/ objs[o] = <<>>
                      \/ Len(objs'[o]) = Len(objs[o]) + 1 /\ SubSeq(objs'[o], 1, Len(objs[o])) = objs[o]
                      \/ Len(objs'[o]) = Len(objs[o]) - 1 /\ objs'[o] = SubSeq(objs[o], 1, Len(objs[o]) - 1)
                      \/ \E n \in 1..MAXOBJ : objs'[o] = objs[n]]_objs

\* C21: lines of play, counted by walking, are the sequences of legal moves
RECURSIVE Lines(_, _)
Lines(p, d) == IF d = 0 THEN {<<>>}
               ELSE UNION {{<<m>> \o x : x \in Lines(Apply(p, m), d - 1)} : m \in Legal(p)}
WalkOK == \A o \in 1..MAXOBJ : Exists(o) /\ Depth(o) = 1 =>
            \A d \in 0..2 : Perft(Top(o).p, d) = Cardinality(Lines(Top(o).p, d))
=============================================================================
