-------------------------------- MODULE YasaiAlgo --------------------------------
(***************************************************************************)
(* The algorithms of yasai (src/position.rs, src/movegen.rs, src/tables.rs)*)
(* one level up from the bits: bitboards are sets of squares, keys are     *)
(* sets of tokens under symmetric difference.  Everything yasai keeps      *)
(* incrementally - mailbox, player and kind sets, keys, the attack         *)
(* information of a state - is state here and is updated by the same steps;*)
(* every shortcut yasai takes is taken here.                               *)
(*                                                                         *)
(* AlgoMC checks, state by state, that this machine implements Shogi.tla:  *)
(* the design is right.  That the code follows the design is a matter for  *)
(* the traces (ShogiTrace).                                                *)
(***************************************************************************)
EXTENDS ShogiRules, TLC

Xor(A, B) == (A \ B) \cup (B \ A)

(***************************************************************************)
(* tables.rs                                                               *)
(***************************************************************************)
\* one step from s in direction d: {} or a singleton
Step(s, d) == IF Ray[s][d] = <<>> THEN {} ELSE {Ray[s][d][1]}
Deltas(k, c) == LET ds == CASE k = Pawn -> {1} [] k = Silver -> {1,2,4,6,8}
                            [] k = Gold -> {1,2,3,5,7,8} [] k = King -> Dirs
                IN IF c = Black THEN ds ELSE {Turn(d) : d \in ds}
StepTable(k) == [s \in Squares |-> [c \in Colors |-> UNION {Step(s, d) : d \in Deltas(k, c)}]]
FU == StepTable(Pawn)   GI == StepTable(Silver)   KI == StepTable(Gold)   OU == StepTable(King)
KE == KnightTo

\* squares along the ray up to the first occupied one, which is included
Slide(s, d, occ) ==
  LET ray == Ray[s][d]
      hit == {i \in 1..Len(ray) : ray[i] \in occ}
      n   == IF hit = {} THEN Len(ray) ELSE CHOOSE i \in hit : \A j \in hit : i <= j
  IN  {ray[i] : i \in 1..n}
KY(s, c, occ) == Slide(s, IF c = Black THEN 1 ELSE 5, occ)
KA(s, occ) == UNION {Slide(s, d, occ) : d \in {2, 4, 6, 8}}
HI(s, occ) == UNION {Slide(s, d, occ) : d \in {1, 3, 5, 7}}
KYmask == [s \in Squares |-> [c \in Colors |-> KY(s, c, {})]]
KAmask == [s \in Squares |-> KA(s, {})]
HImask == [s \in Squares |-> HI(s, {})]

\* attack as if there were nothing else on the board
PseudoAttack(k, s, c) ==
  CASE k = Lance -> KYmask[s][c]
    [] k \in {Bishop, ProBishop} -> KAmask[s]
    [] k \in {Rook, ProRook} -> HImask[s]
    [] k = Pawn -> FU[s][c]
    [] k = Knight -> KE[s][c]
    [] k = Silver -> GI[s][c]
    [] k = King -> OU[s][c]
    [] OTHER -> KI[s][c]

RayIndex(s, d, t) == {i \in 1..Len(Ray[s][d]) : Ray[s][d][i] = t}
Between == [s \in Squares |-> [t \in Squares |->
   UNION {{Ray[s][d][j] : j \in 1..(i-1)} : <<d, i>> \in {x \in Dirs \X (1..(NF+NR)) : x[2] \in RayIndex(s, x[1], t)}}]]
FileSet == [f \in 1..NF |-> {s \in Squares : File[s] = f}]
Promotable == InZone

(***************************************************************************)
(* The representation.  inner: side, ply, hands, board, pbb, kbb           *)
(***************************************************************************)
Occ(x) == x.pbb[1] \cup x.pbb[2]
KingPos(x, c) == LET S == x.pbb[c] \cap x.kbb[King] IN    \* {} or a singleton
                 IF S = {} THEN {} ELSE {CHOOSE s \in S : \A t \in S : s <= t}
XorPiece(x, s, p) == [x EXCEPT !.pbb[ColOf[p]] = Xor(@, {s}), !.kbb[KindOf[p]] = Xor(@, {s})]
Unpromote(k) == IF CapturedAs[k] = 0 THEN k ELSE CapturedAs[k]

FromPartial(p) ==
  [side |-> p.c, ply |-> p.ply, hands |-> p.h, board |-> p.b,
   pbb |-> [c \in Colors |-> {s \in Squares : p.b[s] # 0 /\ ColOf[p.b[s]] = c}],
   kbb |-> [k \in Kinds |-> {s \in Squares : p.b[s] # 0 /\ KindOf[p.b[s]] = k}]]

\* keys as sets of tokens
TBoard(s, p) == {100*s + p}
THand(c, k, i) == {10000*(1 + 10*c + k) + i}
TColor == {0}

(***************************************************************************)
(* AttackInfo                                                              *)
(***************************************************************************)
Kind(x, ks) == UNION {x.kbb[k] : k \in ks}
Goldish == {Gold, ProPawn, ProLance, ProKnight, ProSilver}

CalcCheckers(x) ==
  LET c == x.side  occ == Occ(x)  kp == KingPos(x, c) IN
  IF kp = {} THEN {} ELSE LET s == CHOOSE y \in kp : TRUE IN
    (  (FU[s][c] \cap Kind(x, {Pawn}))
      \cup (KY(s, c, occ) \cap Kind(x, {Lance}))
      \cup (KE[s][c] \cap Kind(x, {Knight}))
      \cup (GI[s][c] \cap Kind(x, {Silver, ProRook}))
      \cup (KA(s, occ) \cap Kind(x, {Bishop, ProBishop}))
      \cup (HI(s, occ) \cap Kind(x, {Rook, ProRook}))
      \cup (KI[s][c] \cap Kind(x, Goldish \cup {ProBishop})) ) \cap x.pbb[Opp(c)]

PinnedOf(x, c) ==
  LET kp == KingPos(x, c)  occ == Occ(x) IN
  IF kp = {} THEN {} ELSE LET s == CHOOSE y \in kp : TRUE
      snipers == (  (KYmask[s][c] \cap Kind(x, {Lance}))
                  \cup (KAmask[s] \cap Kind(x, {Bishop, ProBishop}))
                  \cup (HImask[s] \cap Kind(x, {Rook, ProRook})) ) \cap x.pbb[Opp(c)]
  IN UNION {LET bl == Between[s][t] \cap occ IN IF Cardinality(bl) = 1 THEN bl ELSE {} : t \in snipers}

Checkables(x) ==
  LET opp == Opp(x.side)  occ == Occ(x)  kp == KingPos(x, opp) IN
  IF kp = {} THEN [k \in Kinds |-> {}]
  ELSE LET s == CHOOSE y \in kp : TRUE
           ka == KA(s, occ)  hi == HI(s, occ)  ki == KI[s][opp]  gi == GI[s][opp] IN
       << FU[s][opp], KY(s, opp, occ), KE[s][opp], gi, ki, ka, hi, {}, ki, ki, ki, ki, ka \cup ki, hi \cup gi >>

AttackInfo(ch, x) == [checkers |-> ch, pinned |-> <<PinnedOf(x, 1), PinnedOf(x, 2)>>, checkables |-> Checkables(x)]

(***************************************************************************)
(* A Position: inner and a stack of states                                 *)
(***************************************************************************)
State(keys, cap, last, ai) == [keys |-> keys, cap |-> cap, last |-> last, ai |-> ai]
TopS(o) == o.states[Len(o.states)]

RECURSIVE XorAll(_)
XorAll(s) == IF s = <<>> THEN {} ELSE Xor(s[1], XorAll(Tail(s)))

NewObj(p) ==
  LET x  == FromPartial(p)
      k0 == XorAll([s \in Squares |-> IF p.b[s] = 0 THEN {} ELSE TBoard(s, p.b[s])])
      k1 == XorAll([j \in 1..(2*7) |-> LET c == ((j-1) \div 7) + 1  k == ((j-1) % 7) + 1 IN
                      XorAll([i \in 1..p.h[c][k] |-> THand(c, k, i-1)])])
  IN [inner |-> x,
      states |-> << State(<<IF p.c = White THEN Xor(k0, TColor) ELSE k0, k1>>, 0, 0,
                          AttackInfo(CalcCheckers(x), x)) >>]

IsCheckMove(o, m) ==
  LET x == o.inner  ai == TopS(o).ai  to == MTo(m) IN
  IF IsDrop(m) THEN to \in ai.checkables[MKind(m)]
  ELSE LET from == MFrom(m)
           k0 == KindOf[x.board[from]]
           k  == IF IsPromo(m) /\ PromoteTo[k0] # 0 THEN PromoteTo[k0] ELSE k0
           c  == Opp(x.side) IN
       \/ to \in ai.checkables[k]
       \/ /\ from \in ai.pinned[c]
          /\ LET s == CHOOSE y \in KingPos(x, c) : TRUE IN
             ~(to \in Between[s][from] \/ from \in Between[s][to])

AlgoDo(o, m) ==
  LET x == o.inner  c == x.side  to == MTo(m)
      chk == IsCheckMove(o, m)
      cap == x.board[to]
      keys == TopS(o).keys
  IN
  IF IsDrop(m) THEN
    LET k == MKind(m)  pc == PieceOf(k, c)
        x1 == XorPiece(x, to, pc)
        x2 == [x1 EXCEPT !.board[to] = pc, !.hands[c][k] = @ - 1, !.side = Opp(c), !.ply = @ + 1]
        k1 == Xor(keys[2], THand(c, k, x2.hands[c][k]))
        k0 == Xor(Xor(keys[1], TBoard(to, pc)), TColor)
    IN [inner |-> x2,
        states |-> Append(o.states, State(<<k0, k1>>, cap, pc, AttackInfo(IF chk THEN {to} ELSE {}, x2)))]
  ELSE
    LET from == MFrom(m)  pc == x.board[from]
        kc   == IF cap = 0 THEN 0 ELSE Unpromote(KindOf[cap])
        ka   == IF cap = 0 THEN keys
                ELSE <<Xor(keys[1], TBoard(to, cap)), Xor(keys[2], THand(c, kc, x.hands[c][kc]))>>
        x1   == IF cap = 0 THEN x ELSE [XorPiece(x, to, cap) EXCEPT !.hands[c][kc] = @ + 1]
        tp   == IF IsPromo(m) THEN PieceOf(PromoteTo[KindOf[pc]], c) ELSE pc
        x2   == XorPiece(XorPiece(x1, from, pc), to, tp)
        x3   == [x2 EXCEPT !.board[from] = 0, !.board[to] = tp, !.side = Opp(c), !.ply = @ + 1]
        k0   == Xor(Xor(Xor(ka[1], TBoard(from, pc)), TBoard(to, tp)), TColor)
    IN [inner |-> x3,
        states |-> Append(o.states, State(<<k0, ka[2]>>, cap, pc,
                                          AttackInfo(IF chk THEN CalcCheckers(x3) ELSE {}, x3)))]

AlgoUndo(o, m) ==
  LET x == o.inner  c == Opp(x.side)  to == MTo(m)  st == TopS(o)
      pop == SubSeq(o.states, 1, Len(o.states) - 1) IN
  IF IsDrop(m) THEN
    LET k == MKind(m)  pc == PieceOf(k, c)
        x1 == XorPiece(x, to, pc) IN
    [inner |-> [x1 EXCEPT !.board[to] = 0, !.hands[c][k] = @ + 1, !.side = c, !.ply = @ - 1], states |-> pop]
  ELSE
    LET from == MFrom(m)
        kc == IF st.cap = 0 THEN 0 ELSE Unpromote(KindOf[st.cap])
        x1 == IF st.cap = 0 THEN x ELSE [XorPiece(x, to, st.cap) EXCEPT !.hands[c][kc] = @ - 1]
        x2 == XorPiece(x1, from, st.last)
        x3 == XorPiece(x2, to, x2.board[to])
    IN [inner |-> [x3 EXCEPT !.board[from] = st.last, !.board[to] = st.cap, !.side = c, !.ply = @ - 1],
        states |-> pop]

(***************************************************************************)
(* movegen.rs                                                              *)
(***************************************************************************)
AttackersTo(x, c, to, occ) ==
  LET o == Opp(c) IN
  (  (FU[to][o] \cap Kind(x, {Pawn}))
    \cup (KY(to, o, occ) \cap Kind(x, {Lance}))
    \cup (KE[to][o] \cap Kind(x, {Knight}))
    \cup (GI[to][o] \cap Kind(x, {Silver, ProRook, King}))
    \cup (KA(to, occ) \cap Kind(x, {Bishop, ProBishop}))
    \cup (HI(to, occ) \cap Kind(x, {Rook, ProRook}))
    \cup (KI[to][o] \cap Kind(x, Goldish \cup {ProBishop, King})) ) \cap x.pbb[c]
AttackersExceptKLP(x, c, to) ==
  LET o == Opp(c)  occ == Occ(x) IN
  (  (KE[to][o] \cap Kind(x, {Knight}))
    \cup (GI[to][o] \cap Kind(x, {Silver, ProRook}))
    \cup (KA(to, occ) \cap Kind(x, {Bishop, ProBishop}))
    \cup (HI(to, occ) \cap Kind(x, {Rook, ProRook}))
    \cup (KI[to][o] \cap Kind(x, Goldish \cup {ProBishop})) ) \cap x.pbb[c]

IsPawnDropMate(o, sq) ==
  LET x == o.inner  c == x.side  d == Opp(c) IN
  /\ AttackersTo(x, c, sq, Occ(x)) # {}
  /\ AttackersExceptKLP(x, d, sq) \cap ((Squares \ TopS(o).ai.pinned[d]) \cup FileSet[File[sq]]) = {}
  /\ \A king \in KingPos(x, d) :
       LET esc == (OU[king][d] \ x.pbb[d]) \ {sq}
           occ == Occ(x) \cup {sq}
       IN  \A to \in esc : AttackersTo(x, c, to, occ) # {}

\* moves of pieces that may stay behind only if they can still move (min: the last
\* relative rank on which they can not)
Forced(x, from, tos, min) ==
  UNION {IF Promotable[to][x.side]
         THEN {BoardMove(from, to, 1)} \cup (IF RelRank[to][x.side] > min THEN {BoardMove(from, to, 0)} ELSE {})
         ELSE {BoardMove(from, to, 0)} : to \in tos}
Free(x, from, tos) ==
  UNION {{BoardMove(from, to, 0)}
         \cup (IF Promotable[from][x.side] \/ Promotable[to][x.side] THEN {BoardMove(from, to, 1)} ELSE {})
         : to \in tos}
Simple(from, tos) == {BoardMove(from, to, 0) : to \in tos}
Own(x, ks) == Kind(x, ks) \cap x.pbb[x.side]

\* all pieces but the king, onto target
GenPieces(x, target) ==
  LET c == x.side  occ == Occ(x) IN
  UNION {Forced(x, s, FU[s][c] \cap target, 1) : s \in Own(x, {Pawn})}
  \cup UNION {Forced(x, s, KY(s, c, occ) \cap target, 1) : s \in Own(x, {Lance})}
  \cup UNION {Forced(x, s, KE[s][c] \cap target, 2) : s \in Own(x, {Knight})}
  \cup UNION {Free(x, s, GI[s][c] \cap target) : s \in Own(x, {Silver})}
  \cup UNION {Free(x, s, KA(s, occ) \cap target) : s \in Own(x, {Bishop})}
  \cup UNION {Free(x, s, HI(s, occ) \cap target) : s \in Own(x, {Rook})}
  \cup UNION {Simple(s, KI[s][c] \cap target) : s \in Own(x, Goldish)}
  \cup UNION {Simple(s, (KA(s, occ) \cup OU[s][c]) \cap target) : s \in Own(x, {ProBishop})}
  \cup UNION {Simple(s, (HI(s, occ) \cup OU[s][c]) \cap target) : s \in Own(x, {ProRook})}

GenDrop(o, target) ==
  LET x == o.inner  c == x.side
      vacant == {s \in Squares : x.pbb[c] \cap x.kbb[Pawn] \cap FileSet[File[s]] = {}}
      front == UNION {FU[s][Opp(c)] : s \in KingPos(x, Opp(c))}
      pawnT == LET t == target \cap vacant IN t \ {s \in front \cap t : IsPawnDropMate(o, s)}
  IN UNION {{DropMove(k, to) : to \in {s \in (IF k = Pawn THEN pawnT ELSE target) :
                                         CASE k \in {Pawn, Lance} -> RelRank[s][c] > 1
                                           [] k = Knight -> RelRank[s][c] > 2
                                           [] OTHER -> TRUE}}
            : k \in {j \in HandKinds : x.hands[c][j] > 0}}

GenAll(o) ==
  LET x == o.inner  target == Squares \ x.pbb[x.side] IN
  GenPieces(x, target)
  \cup UNION {Simple(s, OU[s][x.side] \cap target) : s \in Own(x, {King})}
  \cup GenDrop(o, Squares \ Occ(x))

GenEvasions(o) ==
  LET x == o.inner  c == x.side  ai == TopS(o).ai
      king == CHOOSE s \in KingPos(x, c) : TRUE
      att == UNION {LET k == KindOf[x.board[ch]] IN
                    IF k = ProRook /\ File[ch] # File[king] /\ Rank[ch] # Rank[king]
                    THEN HI(ch, Occ(x)) ELSE PseudoAttack(k, ch, Opp(c)) : ch \in ai.checkers}
      steps == Simple(king, (OU[king][c] \ x.pbb[c]) \ att)
  IN IF Cardinality(ai.checkers) > 1 THEN steps
     ELSE LET ch == CHOOSE s \in ai.checkers : TRUE
              td == Between[ch][king] IN
          steps \cup GenPieces(x, td \cup ai.checkers) \cup (IF td = {} THEN {} ELSE GenDrop(o, td))

IsLegalAlgo(o, m) ==
  IsDrop(m) \/
  LET x == o.inner  c == x.side  from == MFrom(m)  to == MTo(m) IN
  /\ ~(x.board[from] = PieceOf(King, c) /\ AttackersTo(x, Opp(c), to, Occ(x)) # {})
  /\ ~(/\ from \in TopS(o).ai.pinned[c]
       /\ \E s \in KingPos(x, c) : ~(to \in Between[s][from] \/ from \in Between[s][to]))

AlgoGen(o) == IF TopS(o).ai.checkers # {} THEN GenEvasions(o) ELSE GenAll(o)
AlgoLegal(o) == {m \in AlgoGen(o) : IsLegalAlgo(o, m)}
=============================================================================
