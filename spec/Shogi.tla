--------------------------------- MODULE Shogi ---------------------------------
(***************************************************************************)
(* The library as a state machine.                                         *)
(*                                                                         *)
(* A user holds a number of position objects.  Each object is a stack of   *)
(* nodes: the position it was constructed with and, above it, one node per *)
(* move played and not yet taken back.  The only actions are the public    *)
(* calls; queries change nothing.                                          *)
(***************************************************************************)
EXTENDS ShogiRules, TLC

CONSTANT MAXOBJ              \* number of objects a user holds

VARIABLE objs                \* 1..MAXOBJ -> stack of nodes (<<>>: no object)

Node(p, m, ob) == [p |-> p, m |-> m, ob |-> ob]
Depth(o) == Len(objs[o])
Top(o)   == objs[o][Len(objs[o])]
Below(o) == objs[o][Len(objs[o]) - 1]
Exists(o) == objs[o] # <<>>
NoOb     == [x \in {} |-> 0]

MachineInit == objs = [o \in 1..MAXOBJ |-> <<>>]

\* Position::new / Position::default
New(o, p, ob) ==
  /\ objs' = [objs EXCEPT ![o] = <<Node(p, 0, ob)>>]

\* do_move: defined for legal moves
DoMove(o, m, ob) ==
  /\ Exists(o)
  /\ IsLegal(Top(o).p, m)
  /\ objs' = [objs EXCEPT ![o] = Append(@, Node(Apply(Top(o).p, m), m, ob))]

\* undo_move: takes back the move played last
UndoMove(o) ==
  /\ Exists(o) /\ Depth(o) > 1
  /\ objs' = [objs EXCEPT ![o] = SubSeq(@, 1, Len(@) - 1)]

\* clone
CloneTo(o, n) ==
  /\ Exists(o)
  /\ objs' = [objs EXCEPT ![n] = objs[o]]

\* any query
Query(o) == Exists(o) /\ UNCHANGED objs

(***************************************************************************)
(* What must hold of every reachable state, given valid roots (C22).       *)
(***************************************************************************)
AllMaterial(p) == [k \in HandKinds |-> Material(p, k)]
KingSet(p)     == {c \in Colors : KingSq(p.b, c) # 0}

\* q is one move after p
Successive(p, q) ==
  /\ AllMaterial(p) = AllMaterial(q)
  /\ KingSet(p) = KingSet(q)
  /\ q.c = Opp(p.c)
  /\ q.ply = p.ply + 1

ReachableOK ==
  \A o \in 1..MAXOBJ : Exists(o) =>
     /\ \A i \in 1..Depth(o) : ValidPos(objs[o][i].p)
     /\ \A i \in 2..Depth(o) : Successive(objs[o][i-1].p, objs[o][i].p)
=============================================================================
