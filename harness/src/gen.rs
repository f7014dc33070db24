//! Sources of valid positions and move-choice policies. Everything here is a deterministic
//! function of the random seed and uses only the scout model, never the code under test.
use crate::model::*;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed.wrapping_add(0x9e3779b97f4a7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        Rng((z ^ (z >> 31)) | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545f4914f6cdd1d)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n.max(1)
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// index drawn with the given weights
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        w.len() - 1
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Src {
    Start,
    Medium,
    Sparse,
    Cluster,
    Lines,
    PawnMate,
    Check,
    MaxMob,
    Hands,
    Mid,
    Edge,
    Mate,
    Dense,
    Biased,
    Bound,
    /// few moves on both sides, for walks of many plies
    Few,
}
pub const ALL_SRC: [Src; 15] = [
    Src::Start,
    Src::Medium,
    Src::Sparse,
    Src::Cluster,
    Src::Lines,
    Src::PawnMate,
    Src::Check,
    Src::MaxMob,
    Src::Hands,
    Src::Mid,
    Src::Edge,
    Src::Mate,
    Src::Dense,
    Src::Biased,
    Src::Bound,
];

pub struct Builder {
    pub p: Pos,
    pool: [u8; 8],
}

impl Builder {
    fn new() -> Builder {
        Builder { p: Pos::empty(), pool: [0, 18, 4, 4, 4, 4, 2, 2] }
    }
    fn empty(&self, s: u8) -> bool {
        self.p.b[s as usize] == 0
    }
    fn king(&mut self, c: usize, s: u8) {
        self.p.b[s as usize] = piece(KING, c);
    }
    /// Put a piece of board kind k (1..14, not king) on s, if the rules of placement allow.
    fn put(&mut self, k: u8, c: usize, s: u8) -> bool {
        let base = CAPTURED_AS[k as usize];
        if !self.empty(s) || base == 0 || self.pool[base as usize] == 0 || dead_end(k, c, s) {
            return false;
        }
        if k == PAWN && pawn_on_file(&self.p.b, c, file(s)) {
            return false;
        }
        self.p.b[s as usize] = piece(k, c);
        self.pool[base as usize] -= 1;
        true
    }
    fn to_hand(&mut self, k: u8, c: usize, n: u8) {
        let n = n.min(self.pool[k as usize]);
        self.p.h[c][k as usize] += n;
        self.pool[k as usize] -= n;
    }
    fn unput(&mut self, s: u8) {
        let q = self.p.b[s as usize];
        self.p.b[s as usize] = 0;
        self.pool[CAPTURED_AS[kind(q) as usize] as usize] += 1;
    }
    fn rest_to_hands(&mut self, r: &mut Rng, pct: usize, black_pct: usize) {
        for k in 1..=7u8 {
            while self.pool[k as usize] > 0 {
                if r.chance(pct) {
                    let c = if r.chance(black_pct) { 0 } else { 1 };
                    self.to_hand(k, c, 1);
                } else {
                    self.pool[k as usize] -= 1;
                }
            }
        }
    }
    /// Make the side not to move safe: flip the side, or take checkers off the board.
    fn settle(&mut self, r: &mut Rng, flip: bool) {
        let c = self.p.c;
        if king_attacked(&self.p.b, 1 - c) {
            if flip && !king_attacked(&self.p.b, c) {
                self.p.c = 1 - c;
            } else {
                for _ in 0..12 {
                    let o = 1 - self.p.c;
                    let k = king_sq(&self.p.b, o);
                    if k == 0 {
                        break;
                    }
                    let at = attackers(&self.p.b, k, 1 - o);
                    if at.is_empty() {
                        break;
                    }
                    for s in at {
                        if kind(self.p.b[s as usize]) == KING {
                            // adjacent kings: move the attacker's king away
                            self.p.b[s as usize] = 0;
                            let mut t = r.range(1, 81) as u8;
                            let mut n = 0;
                            while (!self.empty(t) || attacked(&self.p.b, t, o)) && n < 500 {
                                t = r.range(1, 81) as u8;
                                n += 1;
                            }
                            self.p.b[t as usize] = piece(KING, 1 - o);
                        } else {
                            self.unput(s);
                        }
                    }
                }
            }
        }
    }
}

fn rand_kind(r: &mut Rng) -> u8 {
    // every board kind but the king
    let k = r.weighted(&[0, 18, 7, 7, 8, 8, 8, 8, 0, 5, 4, 4, 5, 8, 8]);
    k as u8
}
fn near(r: &mut Rng, s: u8, rad: i32) -> u8 {
    let f = (file(s) as i32 + r.range(0, 2 * rad as usize) as i32 - rad).clamp(1, 9);
    let k = (rank(s) as i32 + r.range(0, 2 * rad as usize) as i32 - rad).clamp(1, 9);
    sq(f as u8, k as u8)
}
fn rand_sq(r: &mut Rng) -> u8 {
    r.range(1, 81) as u8
}
fn edge_sq(r: &mut Rng) -> u8 {
    match r.below(4) {
        0 => sq(r.range(1, 9) as u8, if r.chance(50) { 1 } else { 9 }),
        1 => sq(if r.chance(50) { 1 } else { 9 }, r.range(1, 9) as u8),
        _ => sq(r.range(6, 9) as u8, r.range(1, 9) as u8),
    }
}

fn kings(r: &mut Rng, b: &mut Builder) -> (u8, u8) {
    loop {
        let k0 = if r.chance(40) { edge_sq(r) } else { rand_sq(r) };
        let k1 = if r.chance(40) { edge_sq(r) } else { rand_sq(r) };
        let df = (file(k0) as i32 - file(k1) as i32).abs();
        let dr = (rank(k0) as i32 - rank(k1) as i32).abs();
        if df.max(dr) >= 2 {
            b.king(0, k0);
            b.king(1, k1);
            return (k0, k1);
        }
    }
}

fn sprinkle(r: &mut Rng, n: usize, edge: bool) -> Builder {
    let mut b = Builder::new();
    kings(r, &mut b);
    for _ in 0..n {
        let s = if edge && r.chance(70) { edge_sq(r) } else { rand_sq(r) };
        b.put(rand_kind(r), r.below(2), s);
    }
    b.p.c = r.below(2);
    b
}

fn cluster(r: &mut Rng) -> Builder {
    let mut b = Builder::new();
    let (k0, k1) = kings(r, &mut b);
    let ks = [k0, k1];
    let n = r.range(3, 14);
    for _ in 0..n {
        let w = r.below(2);
        let rad = if r.chance(60) { 1 } else { 2 };
        let s = near(r, ks[w], rad);
        b.put(rand_kind(r), r.below(2), s);
    }
    for _ in 0..r.below(8) {
        let s = rand_sq(r);
        b.put(rand_kind(r), r.below(2), s);
    }
    b.p.c = r.below(2);
    b
}

/// Put a line piece of colour c on a ray from s, with nblock pieces in between.
fn sniper(r: &mut Rng, b: &mut Builder, s: u8, c: usize, nblock: usize) {
    let d = r.below(8);
    let ray = &tb().ray[s as usize][d];
    if ray.len() < nblock + 1 {
        return;
    }
    let i = r.range(nblock, ray.len() - 1);
    if ray[..=i].iter().any(|&q| !b.empty(q)) {
        return;
    }
    let k = if d % 2 == 0 { *r.pick(&[ROOK, 14, LANCE, ROOK, 14]) } else { *r.pick(&[BISHOP, 13]) };
    if k == LANCE && tb().moves[piece(LANCE, c) as usize][turn(d)] != 2 {
        if r.chance(80) {
            return;
        }
    }
    if !b.put(k, c, ray[i]) {
        return;
    }
    let mut placed = 0;
    for _ in 0..20 {
        if placed == nblock {
            break;
        }
        let j = r.below(i.max(1));
        if j < i {
            let bk = rand_kind(r);
            if b.put(bk, r.below(2), ray[j]) {
                placed += 1;
            }
        }
    }
}

fn lines(r: &mut Rng) -> Builder {
    let mut b = Builder::new();
    let (k0, k1) = kings(r, &mut b);
    let ks = [k0, k1];
    for _ in 0..r.range(1, 5) {
        let w = r.below(2);
        let nb = r.weighted(&[1, 8, 2]);
        sniper(r, &mut b, ks[w], 1 - w, nb);
    }
    for _ in 0..r.below(3) {
        // own line pieces aimed at the enemy king through something: discoveries
        let w = r.below(2);
        sniper(r, &mut b, ks[w], 1 - w, 1);
    }
    for _ in 0..r.below(10) {
        let s = rand_sq(r);
        b.put(rand_kind(r), r.below(2), s);
    }
    b.p.c = r.below(2);
    b
}

/// Most pieces on one side, few kinds, or nearly everything promoted.
fn biased(r: &mut Rng) -> Builder {
    let mut b = Builder::new();
    kings(r, &mut b);
    let black = *r.pick(&[0, 0, 3, 10, 50, 90, 97, 100, 100]);
    let mut w = [0usize; 15];
    let how = r.below(5);
    for (k, w) in w.iter_mut().enumerate().skip(1) {
        *w = match how {
            // promoted ones
            0 => if k >= 9 { 10 } else { r.below(2) },
            // unpromoted ones
            1 => if k <= 7 { 10 } else { 0 },
            // a few kinds
            2 | 3 => if r.chance(30) { r.range(1, 20) } else { 0 },
            _ => r.range(0, 10),
        };
    }
    w[1] *= 4;
    w[9] *= 4;
    w[8] = 0;
    if w.iter().sum::<usize>() == 0 {
        w[1] = 1;
    }
    let n = *r.pick(&[5, 15, 40, 120, 300, 300]);
    for _ in 0..n {
        let c = if r.chance(black) { 0 } else { 1 };
        let s = rand_sq(r);
        let k = r.weighted(&w) as u8;
        b.put(k, c, s);
    }
    b.p.c = r.below(2);
    b
}

/// Little that can move: the number of lines of play grows slowly.
fn few(r: &mut Rng) -> Builder {
    let mut b = Builder::new();
    for c in 0..2 {
        // removed again by `position` where no king is asked for
        for _ in 0..50 {
            let s = edge_sq(r);
            if b.empty(s) && !attacked(&b.p.b, s, 1 - c) {
                b.king(c, s);
                break;
            }
        }
        let n = *r.pick(&[1, 1, 1, 2, 3]);
        for _ in 0..n {
            let k = *r.pick(if n > 1 { &[1, 1, 1, 1, 1, 1, 1, 3] } else { &[1, 1, 1, 1, 3, 2, 4, 5] });
            for _ in 0..20 {
                let s = rand_sq(r);
                if rel_rank(s, c) >= 6 && b.put(k, c, s) {
                    break;
                }
            }
        }
    }
    b.p.c = r.below(2);
    b
}

/// A king from which several lines lead over one piece to a line piece of the other side.
fn bound(r: &mut Rng) -> Builder {
    let mut b = Builder::new();
    let inner = |r: &mut Rng| sq(r.range(3, 7) as u8, r.range(3, 7) as u8);
    let w = r.below(2);
    let k = if r.chance(70) { inner(r) } else { rand_sq(r) };
    b.king(w, k);
    for _ in 0..200 {
        let s = rand_sq(r);
        let (df, dr) = ((file(k) as i32 - file(s) as i32).abs(), (rank(k) as i32 - rank(s) as i32).abs());
        if df.max(dr) >= 2 {
            b.king(1 - w, s);
            break;
        }
    }
    let blockers = *r.pick(&[0, 50, 50, 90, 100]);
    let mut ds = [0usize, 1, 2, 3, 4, 5, 6, 7];
    for i in (1..8).rev() {
        ds.swap(i, r.below(i + 1));
    }
    for d in ds {
        let ray = &tb().ray[k as usize][d];
        if ray.len() < 2 {
            continue;
        }
        let i = r.range(1, ray.len() - 1);
        let j = r.below(i);
        if ray[..=i].iter().any(|&q| !b.empty(q)) {
            continue;
        }
        let kinds: &[u8] = if d % 2 == 1 {
            &[BISHOP, 13]
        } else if tb().moves[piece(LANCE, 1 - w) as usize][turn(d)] == 2 {
            &[LANCE, LANCE, ROOK, 14]
        } else {
            &[ROOK, 14]
        };
        let s = *r.pick(kinds);
        if b.put(s, 1 - w, ray[i]) && !r.chance(6) {
            for _ in 0..8 {
                let c = if r.chance(blockers) { w } else { 1 - w };
                let bk = rand_kind(r);
                if b.put(bk, c, ray[j]) {
                    break;
                }
            }
        }
    }
    if r.chance(35) {
        let s = near(r, k, 2);
        let kk = rand_kind(r);
        b.put(kk, 1 - w, s);
    }
    for _ in 0..r.below(8) {
        let s = rand_sq(r);
        let kk = rand_kind(r);
        b.put(kk, r.below(2), s);
    }
    b.p.c = if r.chance(70) { w } else { 1 - w };
    b
}

/// The mover holds a pawn, the square in front of the enemy king is free and the king is hemmed in.
fn pawn_mate(r: &mut Rng) -> Builder {
    let mut b = Builder::new();
    let c = r.below(2);
    let o = 1 - c;
    b.p.c = c;
    let k = loop {
        let k = if r.chance(60) { edge_sq(r) } else { rand_sq(r) };
        if rel_rank(k, o) > 1 && rel_rank(k, c) <= 8 {
            break k;
        }
    };
    b.king(o, k);
    // in front of o's king = one step towards c's side
    let front = if o == 0 { k - 1 } else { k + 1 };
    // c's king sometimes takes part
    let mut own = if r.chance(25) { near(r, front, 2) } else { rand_sq(r) };
    let mut n = 0;
    while !b.empty(own) || own == front || {
        let df = (file(k) as i32 - file(own) as i32).abs();
        let dr = (rank(k) as i32 - rank(own) as i32).abs();
        df.max(dr) < 2
    } {
        own = rand_sq(r);
        n += 1;
        if n > 500 {
            break;
        }
    }
    b.king(c, own);
    b.to_hand(PAWN, c, 1);
    // defenders close to the king (they also block its escape)
    for _ in 0..r.range(0, 5) {
        let s = near(r, k, 1);
        if s != front {
            let kk = rand_kind(r);
            b.put(kk, if r.chance(80) { o } else { c }, s);
        }
    }
    // attackers that protect the pawn or guard escapes
    for _ in 0..r.range(1, 5) {
        let at = if r.chance(50) { front } else { k };
        let s = near(r, at, 2);
        if s != front {
            let kk = rand_kind(r);
            b.put(kk, if r.chance(85) { c } else { o }, s);
        }
    }
    // pins against the defender's king
    for _ in 0..r.below(3) {
        sniper(r, &mut b, k, c, 1);
    }
    // defenders that might capture the pawn
    for _ in 0..r.below(3) {
        let s = if r.chance(50) { near(r, front, 2) } else { rand_sq(r) };
        if s != front {
            let kk = rand_kind(r);
            b.put(kk, o, s);
        }
    }
    if r.chance(30) {
        // line pieces aimed at the pawn's square
        let w = r.below(2);
        sniper(r, &mut b, front, w, 0);
    }
    if !b.empty(front) {
        b.unput(front);
    }
    b
}

fn check(r: &mut Rng) -> Builder {
    let mut b = if r.chance(50) { cluster(r) } else { lines(r) };
    let c = b.p.c;
    let k = king_sq(&b.p.b, c);
    for _ in 0..r.range(1, 2) {
        if r.chance(55) {
            sniper(r, &mut b, k, 1 - c, 0);
        } else {
            let s = near(r, k, 2);
            b.put(rand_kind(r), 1 - c, s);
        }
    }
    // something to interpose and capture with
    for _ in 0..r.below(6) {
        let s = near(r, k, 3);
        b.put(rand_kind(r), c, s);
    }
    b
}

fn max_mob(r: &mut Rng) -> Builder {
    // sfen R8/2K1S1SSk/4B4/9/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1, and mutations of it
    let mut b = Builder::new();
    b.king(0, sq(7, 2));
    b.king(1, sq(1, 2));
    for (k, f, rk) in [
        (ROOK, 9, 1),
        (SILVER, 5, 2),
        (SILVER, 3, 2),
        (SILVER, 2, 2),
        (BISHOP, 5, 3),
        (LANCE, 8, 9),
        (LANCE, 6, 9),
        (LANCE, 4, 9),
    ] {
        if r.chance(88) {
            b.put(k, 0, sq(f, rk));
        }
    }
    for _ in 0..r.below(3) {
        // move something or add something
        let s = rand_sq(r);
        let kk = *r.pick(&[ROOK, 14, BISHOP, 13, SILVER, LANCE, GOLD, KNIGHT]);
        b.put(kk, 0, s);
    }
    for k in 1..=7 {
        b.to_hand(k, 0, 1);
    }
    if r.chance(30) {
        b.rest_to_hands(r, 100, 100);
    } else {
        b.rest_to_hands(r, 100, 0);
    }
    if r.chance(40) {
        b.p = b.p.turned();
    }
    if r.chance(30) {
        b.p = b.p.mirrored();
    }
    b
}

pub fn random_move(r: &mut Rng, p: &Pos, a: &Analysis, style: usize) -> u32 {
    let score = |r: &mut Rng, m: u32| -> usize {
        let cap = !is_drop(m) && p.b[m_to(m) as usize] != 0;
        let king = !is_drop(m) && kind(p.b[m_from(m) as usize]) == KING;
        let chk = a.gives.binary_search(&m).is_ok();
        let base = r.below(4);
        base + match style {
            1 => 5 * cap as usize,
            2 => 6 * chk as usize + 2 * cap as usize,
            3 => 5 * is_drop(m) as usize,
            4 => 5 * is_promo(m) as usize + 2 * cap as usize,
            5 => 4 * king as usize,
            6 => 5 * (!is_drop(m) && !cap) as usize, // quiet
            7 => 6 * (cap && kind(p.b[m_to(m) as usize]) >= 9) as usize + 3 * cap as usize + 2 * is_promo(m) as usize,
            _ => 0,
        }
    };
    let tries = if style == 0 { 1 } else { 5 };
    let mut best = a.legal[r.below(a.legal.len())];
    let mut bs = score(r, best);
    for _ in 1..tries {
        let m = a.legal[r.below(a.legal.len())];
        let s = score(r, m);
        if s > bs {
            best = m;
            bs = s;
        }
    }
    best
}

fn playout(r: &mut Rng, from: Pos, n: usize) -> Pos {
    let mut p = from;
    let style = r.below(8);
    for _ in 0..n {
        let a = p.analyse();
        if a.legal.is_empty() {
            break;
        }
        let m = random_move(r, &p, &a, style);
        p = p.apply(m);
    }
    p
}

/// A valid position. `kingless`: 0 both kings stay, 1 drop White's, 2 drop Black's, 3 drop both.
pub fn position(r: &mut Rng, src: Src, kingless: usize) -> Pos {
    loop {
        let mut b = match src {
            Src::Start => {
                let mut b = Builder::new();
                b.p = Pos::start();
                b.pool = [0; 8];
                b
            }
            Src::Medium => {
                let n = r.range(8, 24);
                sprinkle(r, n, false)
            }
            Src::Dense => {
                let n = r.range(40, 90);
                sprinkle(r, n, false)
            }
            Src::Sparse => {
                let n = r.range(0, 6);
                sprinkle(r, n, r.0 & 64 != 0)
            }
            Src::Edge => {
                let n = r.range(6, 24);
                sprinkle(r, n, true)
            }
            Src::Cluster => cluster(r),
            Src::Lines => lines(r),
            Src::Biased => biased(r),
            Src::Bound => bound(r),
            Src::Few => few(r),
            Src::PawnMate => pawn_mate(r),
            Src::Check | Src::Mate => check(r),
            Src::MaxMob => max_mob(r),
            Src::Hands => {
                let n = r.range(0, 10);
                sprinkle(r, n, false)
            }
            Src::Mid => {
                let mut b = Builder::new();
                let n = r.range(4, 160);
                b.p = playout(r, Pos::start(), n);
                b.pool = [0; 8];
                b
            }
        };
        match kingless {
            1 | 2 => {
                let k = king_sq(&b.p.b, 2 - kingless);
                b.p.b[k as usize] = 0;
            }
            3 => {
                for c in 0..2 {
                    let k = king_sq(&b.p.b, c);
                    b.p.b[k as usize] = 0;
                }
            }
            _ => {}
        }
        let flip = !matches!(src, Src::PawnMate | Src::Check | Src::Mate);
        b.settle(r, flip);
        match src {
            Src::Start | Src::Mid | Src::MaxMob => {}
            Src::Hands => {
                let bp = *r.pick(&[0, 10, 50, 90, 100]);
                b.rest_to_hands(r, 100, bp);
            }
            Src::Few => {
                for _ in 0..*r.pick(&[0, 0, 0, 1]) {
                    let (k, c) = (r.range(1, 7) as u8, r.below(2));
                    b.to_hand(k, c, 1);
                }
            }
            _ => {
                let hp = *r.pick(&[0, 20, 50, 100]);
                let bp = *r.pick(&[0, 50, 50, 100]);
                b.rest_to_hands(r, hp, bp);
            }
        }
        let mut p = b.p;
        // random move numbers, so that nothing relies on starting at 1
        if src != Src::Start && r.chance(40) {
            p.ply = match r.below(3) {
                0 => *r.pick(&[1, 2, 3, 97, 127, 254, 255, 256, 300, 511, 1000, 4095, 32766, 32767, 40000, 60000]),
                1 => *r.pick(&[65500, 65525, 65530, 65532, 65533, 65534]),
                _ => r.range(1, 65534) as u32,
            };
        }
        if !p.valid() {
            continue;
        }
        // room for 593 moves is documented for boards with both kings
        if !p.fits(if src == Src::MaxMob { 593 } else { 560 }) {
            continue;
        }
        match src {
            Src::PawnMate => {
                let a = p.analyse();
                if a.pawn_drop_check.is_none() {
                    continue;
                }
                // prefer mates and near-mates
                if !a.pawn_drop_mate {
                    let q = p.apply(a.pawn_drop_check.unwrap());
                    let n = q.legal().len();
                    if n > 1 && r.chance(if n == 2 { 40 } else { 85 }) {
                        continue;
                    }
                }
            }
            Src::Check => {
                if !p.in_check() {
                    continue;
                }
            }
            Src::Mate => {
                if !p.in_check() || p.legal().len() > 3 {
                    continue;
                }
            }
            _ => {}
        }
        return p;
    }
}

/// A valid position that differs from p in one respect (`what`: 0 hands only, 1 side only,
/// 2 board only, 3 any), if one is found.
pub fn variant(r: &mut Rng, p: &Pos, what: usize) -> Option<Pos> {
    const FULL: [u32; 8] = [0, 18, 4, 4, 4, 4, 2, 2];
    for _ in 0..40 {
        let mut q = p.clone();
        let w = if what == 3 { r.below(3) } else { what };
        match w {
            0 => match r.below(4) {
                0 => q.h.swap(0, 1),
                1 => {
                    let (c, k) = (r.below(2), r.range(1, 7));
                    if q.h[c][k] > 0 {
                        q.h[c][k] -= 1;
                        if r.chance(50) {
                            q.h[1 - c][k] += 1;
                        }
                    }
                }
                2 => {
                    let (c, k) = (r.below(2), if r.chance(40) { 1 } else { r.range(1, 7) });
                    q.h[c][k] = if q.h[c][k] > 0 { 0 } else { 1 };
                }
                _ => {
                    let (c, k) = (r.below(2), r.range(1, 7));
                    q.h[c][k] += 1;
                }
            },
            1 => q.c = 1 - q.c,
            _ => match r.below(4) {
                0 => {
                    let s = r.range(1, 81);
                    let x = q.b[s];
                    q.b[s] = if x != 0 { 0 } else { piece(r.range(1, 14) as u8, r.below(2)) };
                }
                1 => {
                    // another kind or colour on the same square: the same squares are occupied
                    let s = r.range(1, 81);
                    if q.b[s] != 0 && kind(q.b[s]) != KING {
                        q.b[s] = piece(r.range(1, 14) as u8, r.below(2));
                    }
                }
                2 => {
                    let (s, t) = (r.range(1, 81), r.range(1, 81));
                    q.b.swap(s, t);
                }
                _ => {
                    // near a king
                    let k = king_sq(&q.b, r.below(2));
                    if k != 0 {
                        let s = near(r, k, 2) as usize;
                        if q.b[s] == 0 || kind(q.b[s]) != KING {
                            q.b[s] = if r.chance(40) { 0 } else { piece(r.range(1, 14) as u8, r.below(2)) };
                        }
                    }
                }
            },
        }
        let kings = |b: &[u8; 82]| (king_sq(b, 0) != 0, king_sq(b, 1) != 0);
        if q != *p && kings(&q.b) == kings(&p.b) && q.valid() && q.fits(593) && (1..=7).all(|k| q.material(k) <= FULL[k as usize]) {
            return Some(q);
        }
    }
    None
}
