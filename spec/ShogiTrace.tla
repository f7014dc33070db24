------------------------------- MODULE ShogiTrace -------------------------------
(***************************************************************************)
(* Validation of executions recorded from the real library.                *)
(*                                                                         *)
(* The file named by TRACE holds one execution per line: the public calls  *)
(* made, in order, and what the library answered to the queries asked      *)
(* after each.  Every call must be explainable as the action of Shogi.tla  *)
(* of the same name, and each property is an invariant relating the        *)
(* model's state to the recorded answers.  The file named by TWIN holds    *)
(* the same executions recorded elsewhere (another build, another process, *)
(* another thread).                                                        *)
(*                                                                         *)
(* A recorded event e:                                                     *)
(*   e.op    new / do / undo / clone / query / perft / adopt / churn /     *)
(*           line / back                                                  *)
(*   e.o     the object;  e.m the move; e.src the description; e.of the    *)
(*           object cloned; e.d, e.n, e.div depth and counts of a walk     *)
(*   e.pre   answer of is_check_move(e.m) just before the move             *)
(*   e.panic where the library panicked or crashed instead of answering    *)
(*   e.ob    answers now: st (board, hands, side, ply), chk, key, leg, gc  *)
(*   e.k, e.ms  churn: the line e.ms was played and taken back, e.k times   *)
(*   e.ms    line: moves played with no question in between               *)
(*   e.k     back: how many moves were taken back, likewise                *)
(*   e.fr    answers of an object constructed from the same position       *)
(*   e.rp    answers of an object made by the same calls on its own, with  *)
(*           no queries in between (C10: with no take-backs either)        *)
(***************************************************************************)
EXTENDS Shogi, Json, IOUtils, Bitwise

Traces == ndJsonDeserialize(IOEnv.TRACE)
Twins  == ndJsonDeserialize(IOEnv.TWIN)

VARIABLES t, l
vars == <<t, l, objs>>

Has(r, k) == k \in DOMAIN r
Ev        == Traces[t].ev
Merge(a, b) == [k \in DOMAIN a \cup DOMAIN b |-> IF k \in DOMAIN a THEN a[k] ELSE b[k]]
Remember(stack, ob) == [stack EXCEPT ![Len(stack)].ob = Merge(@, ob)]

TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ MachineInit

IsEvent(op) == l <= Len(Ev) /\ Ev[l].op = op /\ l' = l + 1 /\ t' = t

TraceNew   == IsEvent("new") /\ New(Ev[l].o, Ev[l].src, Ev[l].ob)
TraceDo    == IsEvent("do") /\ DoMove(Ev[l].o, Ev[l].m, Ev[l].ob)
TraceUndo  == /\ IsEvent("undo") /\ Depth(Ev[l].o) > 1
              /\ LET o == Ev[l].o IN      \* UndoMove(o), and keep what was seen first
                 objs' = [objs EXCEPT ![o] = Remember(SubSeq(@, 1, Len(@)-1), Ev[l].ob)]
TraceClone == /\ IsEvent("clone") /\ Exists(Ev[l].of)
              /\ objs' = [objs EXCEPT ![Ev[l].o] = Remember(objs[Ev[l].of], Ev[l].ob)]
TraceQuery == /\ (IsEvent("query") \/ IsEvent("perft")) /\ Exists(Ev[l].o)
              /\ objs' = [objs EXCEPT ![Ev[l].o] = Remember(@, Ev[l].ob)]
\* A move the library listed, whatever the rules say of it (for C22 only): the
\* model takes over the state the library shows.
TraceAdopt == /\ IsEvent("adopt") /\ Exists(Ev[l].o)
              /\ objs' = [objs EXCEPT ![Ev[l].o] =
                            Append(@, Node(IF Has(Ev[l].ob, "st") THEN Ev[l].ob.st ELSE Top(Ev[l].o).p,
                                           Ev[l].m, Ev[l].ob))]
RECURSIVE IsLine(_, _)
IsLine(p, ms) == IF ms = <<>> THEN TRUE
                 ELSE IF IsLegal(p, ms[1]) THEN IsLine(Apply(p, ms[1]), Tail(ms)) ELSE FALSE
\* Play is undone completely: nothing has changed.
TraceChurn == /\ IsEvent("churn") /\ Exists(Ev[l].o)
              /\ IsLine(Top(Ev[l].o).p, Ev[l].ms)
              /\ objs' = [objs EXCEPT ![Ev[l].o] = Remember(@, Ev[l].ob)]
\* several moves, several take-backs: the actions of Shogi.tla, one after the other
RECURSIVE Line(_, _)
Line(nodes, ms) == IF ms = <<>> THEN nodes
                   ELSE Line(Append(nodes, Node(Apply(nodes[Len(nodes)].p, ms[1]), ms[1], NoOb)), Tail(ms))
TraceLine  == /\ IsEvent("line") /\ Exists(Ev[l].o)
              /\ IsLine(Top(Ev[l].o).p, Ev[l].ms)
              /\ LET o == Ev[l].o IN
                 objs' = [objs EXCEPT ![o] = Remember(Line(@, Ev[l].ms), Ev[l].ob)]
TraceBack  == /\ IsEvent("back") /\ Depth(Ev[l].o) > Ev[l].k
              /\ LET o == Ev[l].o IN
                 objs' = [objs EXCEPT ![o] = Remember(SubSeq(@, 1, Len(@) - Ev[l].k), Ev[l].ob)]
Done       == l = Len(Ev) + 1 /\ UNCHANGED vars

TraceNext == \/ TraceNew \/ TraceDo \/ TraceUndo \/ TraceClone \/ TraceQuery \/ TraceAdopt \/ TraceChurn
             \/ TraceLine \/ TraceBack \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
Where     == [t |-> t, l |-> l]     \* what is printed of a state
TraceView == <<t, l>>      \* the rest is a function of these

(***************************************************************************)
(* The event just consumed.                                                *)
(***************************************************************************)
E      == Ev[l-1]
Now    == Top(E.o).p            \* the position the object must be showing
Seen   == Top(E.o).ob           \* what it answered when first asked here
Was    == Below(E.o).p          \* after a do: the position before the move
Ob(k)  == Has(E.ob, k)
After(P) == l > 1 => P
SeqSet(s) == {s[i] : i \in 1..Len(s)}
\* a set of moves, reported as a list, each once
ListIs(s, S) == Len(s) = Cardinality(S) /\ SeqSet(s) = S

\* The library's lists hold 593 moves. That is enough for every position with both kings; without a king a position
\* may have more (pseudo-legal ones are counted too), and is then outside the domain.
NoRoom == LET ks == KingSqs(Now.b) IN
          /\ 0 \in {ks[1], ks[2]}
          /\ Cardinality(Pseudo(Now)) > 593
Panicked == Has(E, "panic") /\ ~NoRoom
\* No panic in a call that property concerns.
Calm(where) == ~Panicked \/ E.at \notin where
AnyCall == {"new", "read", "in_check", "key", "legal_moves", "is_check_move", "do_move",
            "undo_move", "clone", "perft", "fresh", "replayed", "crash", "hang", "drop", "debug"}

\* For events that ended in a panic there is nothing else to compare.
Judge(where, P) == l > 1 => /\ Calm(where)
                            /\ Has(E, "panic") \/ P

SameOb(a, b) == \A k \in DOMAIN a \cap DOMAIN b : a[k] = b[k]
SameObOn(K, a, b) == \A k \in DOMAIN a \cap DOMAIN b \cap K : a[k] = b[k]
FreshSame == Has(E, "fr") => SameOb(E.ob, E.fr)
ReplaySame == Has(E, "rp") => SameOb(E.ob, E.rp)
KeyIsXor(k) == \A i \in 1..4 : k[1][i] = k[2][i] ^^ k[3][i]

(***************************************************************************)
(* C01                                                                     *)
(***************************************************************************)
LegOK == Ob("leg") => ListIs(E.ob.leg, Legal(Now))
C01 == Judge({"legal_moves", "crash", "hang"}, LegOK)

(***************************************************************************)
(* C02.  Moves that are no moves at all are C01's business.                *)
(***************************************************************************)
OwnMove(p, m) ==
  /\ MTo(m) \in Squares
  /\ IF IsDrop(m) THEN m < 30000 /\ p.b[MTo(m)] = 0 /\ MKind(m) \in HandKinds
     ELSE /\ MFrom(m) \in Squares /\ p.b[MFrom(m)] # 0 /\ ColOf[p.b[MFrom(m)]] = p.c
          /\ ~(p.b[MTo(m)] # 0 /\ KindOf[p.b[MTo(m)]] = King)
          /\ (IsPromo(m) => CanPromote(KindOf[p.b[MFrom(m)]]))
ListedSafe(p, leg) == LET ks == KingSqs(p.b) IN
  \A i \in 1..Len(leg) : OwnMove(p, leg[i]) => SafeMoveK(p, ks, leg[i])
C02 == Judge({"legal_moves", "crash", "hang"}, Ob("leg") => ListedSafe(Now, E.ob.leg))

(***************************************************************************)
(* C03                                                                     *)
(***************************************************************************)
EvasionsOK(p, leg) == LET L == Legal(p) IN
  /\ InCheck(p) => ListIs(leg, L)
  /\ (leg = <<>>) <=> (L = {})
C03 == Judge({"legal_moves", "crash", "hang"}, Ob("leg") => EvasionsOK(Now, E.ob.leg))

(***************************************************************************)
(* C04, C05: drops other than pawn drops that give check, and these.       *)
(***************************************************************************)
PawnCheckDrop(p, ks, m) ==
  IsPawnDrop(m) /\ MTo(m) \in Squares /\ p.b[MTo(m)] = 0 /\ GivesCheckK(p, ks, m)
PlainDrops(p, S) == LET ks == KingSqs(p.b) IN {m \in S : IsDrop(m) /\ ~PawnCheckDrop(p, ks, m)}
PawnChecks(p, S) == LET ks == KingSqs(p.b) IN {m \in S : PawnCheckDrop(p, ks, m)}
SafeDrops(p) == LET ks == KingSqs(p.b) IN {m \in PseudoDrops(p) : SafeMoveK(p, ks, m)}
\* no move occurs twice among those for which P holds
Once(s, S) == Cardinality({i \in 1..Len(s) : s[i] \in S}) = Cardinality(S)
DropsOK(p, leg) == LET D == PlainDrops(p, SafeDrops(p)) IN
  /\ PlainDrops(p, SeqSet(leg)) = D
  /\ Once(leg, D)
C04 == Judge({"legal_moves", "crash", "hang"}, Ob("leg") => DropsOK(Now, E.ob.leg))

PawnDropsOK(p, leg) ==
  PawnChecks(p, SeqSet(leg)) =
    LET ks == KingSqs(p.b) IN
    {m \in PawnChecks(p, SafeDrops(p)) : ~NoEscape(Apply(p, m))}
C05 == Judge({"legal_moves", "crash", "hang"}, Ob("leg") => PawnDropsOK(Now, E.ob.leg))

(***************************************************************************)
(* C06                                                                     *)
(***************************************************************************)
\* board moves for which promotion is a question
Promotable(p, m) ==
  /\ ~IsDrop(m)
  /\ MFrom(m) \in Squares /\ MTo(m) \in Squares
  /\ p.b[MFrom(m)] # 0 /\ ColOf[p.b[MFrom(m)]] = p.c
  /\ PromoFlags(p.b[MFrom(m)], MFrom(m), MTo(m)) # {0}
PromotionsOK(p, leg) ==
  LET ks == KingSqs(p.b)
      L  == {m \in PseudoBoard(p) : SafeMoveK(p, ks, m)}
      S  == SeqSet(leg)
  IN  /\ {m \in S : Promotable(p, m)} = {m \in L : Promotable(p, m)}
      /\ \A m \in S : IsPromo(m) => m \in L
C06 == Judge({"legal_moves", "crash", "hang"}, Ob("leg") => PromotionsOK(Now, E.ob.leg))

(***************************************************************************)
(* C07, C08                                                                *)
(***************************************************************************)
C07 == Judge({"in_check", "crash", "hang"}, Ob("chk") => E.ob.chk = InCheck(Now))

GcOK == Ob("gc") => ListIs(E.ob.gc, Checks(Now))
PreOK == (E.op = "do" /\ Has(E, "pre")) =>
            /\ E.pre = GivesCheck(Was, E.m)
            /\ Ob("chk") => E.ob.chk = E.pre
C08 == Judge({"is_check_move", "crash", "hang"}, GcOK /\ PreOK)

(***************************************************************************)
(* C09, C10, C11                                                           *)
(***************************************************************************)
StOK == Ob("st") => E.ob.st = Now
C09 == Judge({"do_move", "crash", "hang"}, E.op \in {"do", "line"} => StOK)
C10 == Judge({"undo_move", "replayed", "crash", "hang"},
             /\ E.op \in {"undo", "back", "churn"} => SameOb(E.ob, Seen)
             \* play continued after a take-back, as if nothing had been taken back
             /\ ReplaySame)
C11 == Judge({"fresh", "crash", "hang"}, FreshSame)

(***************************************************************************)
(* C12, C13: all keys seen in a trace, whatever object they belong to.     *)
(***************************************************************************)
\* <<position, key>> pairs of the events of this trace, those of fresh objects included;
\* evaluated once, at the end of the trace
RECURSIVE Played(_, _)
Played(ps, ms) == IF ms = <<>> THEN ps ELSE Played(Append(ps, Apply(ps[Len(ps)], ms[1])), Tail(ms))
RECURSIVE Positions(_, _, _)
Positions(i, stacks, acc) ==   \* the position after each event
  IF i > Len(Ev) THEN acc ELSE
  LET e == Ev[i]
      new == CASE e.op = "new"   -> <<e.src>>
               [] e.op = "do"    -> Append(stacks[e.o], Apply(stacks[e.o][Len(stacks[e.o])], e.m))
               [] e.op = "undo"  -> SubSeq(stacks[e.o], 1, Len(stacks[e.o]) - 1)
               [] e.op = "line"  -> Played(stacks[e.o], e.ms)
               [] e.op = "back"  -> SubSeq(stacks[e.o], 1, Len(stacks[e.o]) - e.k)
               [] e.op = "clone" -> stacks[e.of]
               [] OTHER          -> stacks[e.o]
  IN Positions(i+1, [stacks EXCEPT ![e.o] = new], Append(acc, new[Len(new)]))
Book ==
  LET ps == Positions(1, [o \in 1..MAXOBJ |-> <<>>], <<>>) IN
  {<<ps[i], Ev[i].ob.key>> : i \in {j \in 1..Len(Ev) : Has(Ev[j].ob, "key")}}
  \cup {<<ps[i], Ev[i].fr.key>> : i \in {j \in 1..Len(Ev) : Has(Ev[j], "fr") /\ Has(Ev[j].fr, "key")}}
Board(x) == <<x[1].b, x[1].c>>
Hands(x) == x[1].h
AtEnd == l = Len(Ev) + 1
\* f is a function of g on S / g is a function of f on S
Functional(S, G(_), F(_)) == Cardinality({<<G(x), F(x)>> : x \in S}) = Cardinality({G(x) : x \in S})
Key(x) == x[2][1]    Key0(x) == x[2][2]    Key1(x) == x[2][3]
Whole(x) == <<Board(x), Hands(x)>>
C12 == Judge({"key", "crash", "hang"},
         /\ Ob("key") => KeyIsXor(E.ob.key)
         /\ (E.op \in {"undo", "back", "churn"} /\ Ob("key")) => SameObOn({"key"}, E.ob, Seen)
         /\ (Has(E, "fr") /\ Ob("key")) => SameObOn({"key"}, E.ob, E.fr)
         /\ AtEnd => LET B == Book IN
              /\ Functional(B, Board, Key0)
              /\ Functional(B, Hands, Key1)
              /\ Functional(B, Whole, Key))
C13 == Judge({"key", "crash", "hang"},
         AtEnd => LET B == Book IN
              /\ Functional(B, Key0, Board)
              /\ Functional(B, Key1, Hands)
              /\ Functional(B, Key, Whole))

(***************************************************************************)
(* C14: the same calls, made in another build or process.                  *)
(***************************************************************************)
TwinOK ==
  LET f == Twins[t].ev[l-1] IN
    /\ Twins[t].id = Traces[t].id
    /\ Len(Twins[t].ev) = Len(Ev)
    /\ f.op = E.op
    /\ Has(f, "panic") = Has(E, "panic")
    /\ f.ob = E.ob
    /\ Has(f, "pre") = Has(E, "pre") /\ (Has(E, "pre") => f.pre = E.pre)
    /\ Has(E, "n") => (f.n = E.n /\ f.div = E.div)
C14 == l > 1 => TwinOK

(***************************************************************************)
(* C15                                                                     *)
(***************************************************************************)
C15 == l > 1 => /\ ~Panicked
                \* nothing got lost for want of room
                /\ Ob("leg") => Len(E.ob.leg) = Cardinality(Legal(Now))

(***************************************************************************)
(* C16                                                                     *)
(***************************************************************************)
C16 == Judge(AnyCall, /\ E.op \in {"clone", "query"} => SameOb(E.ob, Seen)
                      /\ ReplaySame)       \* as if alone in the world

(***************************************************************************)
(* C17: E.o follows E.symof, turned or mirrored.                           *)
(***************************************************************************)
SymM(m) == IF m >= 30000 \/ MTo(m) \notin Squares THEN m
           ELSE IF ~IsDrop(m) /\ MFrom(m) \notin Squares THEN m
           ELSE IF E.sym = "turn" THEN TurnMove(m) ELSE MirrorMove(m)
SymP(p) == IF E.sym = "turn" THEN TurnPos(p) ELSE MirrorPos(p)
SymList(a, b) == Len(a) = Len(b) /\ {SymM(m) : m \in SeqSet(a)} = SeqSet(b)
C17 == Judge(AnyCall,
         Has(E, "sym") =>
           LET q == Top(E.symof) IN
             /\ Now = SymP(q.p)          \* the script is what it claims to be
             /\ (Ob("chk") /\ Has(q.ob, "chk")) => E.ob.chk = q.ob.chk
             /\ (Ob("leg") /\ Has(q.ob, "leg")) => SymList(q.ob.leg, E.ob.leg)
             /\ (Ob("gc") /\ Has(q.ob, "gc")) => SymList(q.ob.gc, E.ob.gc))

(***************************************************************************)
(* C18                                                                     *)
(***************************************************************************)
BackRank == <<Lance, Knight, Silver, Gold, King, Gold, Silver, Knight, Lance>>
StartBoard ==
  [s \in Squares |->
     CASE Rank[s] = 1 -> PieceOf(BackRank[File[s]], White)
       [] Rank[s] = 9 -> PieceOf(BackRank[File[s]], Black)
       [] Rank[s] = 3 -> PieceOf(Pawn, White)
       [] Rank[s] = 7 -> PieceOf(Pawn, Black)
       [] s = Sq(8, 2) -> PieceOf(Rook, White)
       [] s = Sq(2, 2) -> PieceOf(Bishop, White)
       [] s = Sq(2, 8) -> PieceOf(Rook, Black)
       [] s = Sq(8, 8) -> PieceOf(Bishop, Black)
       [] OTHER -> 0]
StartPos == [b |-> StartBoard, h |-> EmptyHands, c |-> Black, ply |-> 1]
C18 == Judge({"new", "read", "in_check", "key", "crash", "hang"},
         /\ E.op = "new" =>
              /\ StOK
              /\ Ob("chk") => E.ob.chk = InCheck(Now)
              /\ Ob("key") => KeyIsXor(E.ob.key)
              /\ E.dflt => /\ E.src = StartPos
                           /\ Ob("leg") => ListIs(E.ob.leg, Legal(Now)) /\ Len(E.ob.leg) = 30
         /\ AtEnd => LET B == Book IN
              /\ Functional(B, Board, Key0)
              /\ Functional(B, Hands, Key1))

(***************************************************************************)
(* C19: everything, on boards lacking a king.                              *)
(***************************************************************************)
Kingless(p) == KingSqs(p.b)[1] = 0 \/ KingSqs(p.b)[2] = 0
C19 == Judge(AnyCall,
         Kingless(Now) =>
           /\ LegOK /\ GcOK /\ PreOK /\ StOK
           /\ Ob("chk") => E.ob.chk = InCheck(Now)
           /\ Ob("key") => KeyIsXor(E.ob.key)
           /\ SameOb(E.ob, Seen)
           /\ FreshSame)

(***************************************************************************)
(* C20: queries change nothing; the twin was recorded in one thread.       *)
(***************************************************************************)
C20  == Judge(AnyCall, /\ E.op = "query" => SameOb(E.ob, Seen)
                       /\ ReplaySame)      \* as if nothing had been asked
C20T == C14

(***************************************************************************)
(* C21                                                                     *)
(***************************************************************************)
WalkOK ==
  E.op = "perft" =>
    /\ ListIs([i \in 1..Len(E.div) |-> E.div[i][1]], Legal(Now))
    /\ \A i \in 1..Len(E.div) : E.div[i][2] = Perft(Apply(Now, E.div[i][1]), E.d - 1)
    /\ E.n = Perft(Now, E.d)
C21 == Judge({"perft", "legal_moves", "do_move", "undo_move", "crash", "hang"},
         /\ WalkOK
         /\ E.op \in {"perft", "query"} => SameOb(E.ob, Seen))

(***************************************************************************)
(* C22: only what the library shows is used.                               *)
(***************************************************************************)
C22 == Judge({"do_move", "undo_move", "read", "legal_moves", "crash", "hang"},
         Ob("st") =>
           LET q == E.ob.st  d == Depth(E.o) IN
             /\ ValidPos(q)
             /\ AllMaterial(q) = AllMaterial(objs[E.o][1].p)
             /\ KingSet(q) = KingSet(objs[E.o][1].p)
             /\ E.op \in {"adopt", "do"} => Successive(Was, q)
             \* after a take-back: one move fewer, the other side to move
             /\ E.op \in {"undo", "back"} =>
                                 /\ q.ply = Now.ply
                                 /\ q.c = Now.c
             /\ q.ply = objs[E.o][1].p.ply + d - 1)
=============================================================================
