//! The scout: spec/ShogiRules.tla transcribed operator by operator into Rust, on the 9 x 9 board.
//!
//! It never gives a verdict. It picks the moves of generated scripts, decides which states of an
//! execution are worth recording, and flags executions that look wrong; TLC with the TLA+
//! specification judges whatever is recorded or flagged.

pub const NSQ: usize = 81;
pub const PAWN: u8 = 1;
pub const LANCE: u8 = 2;
pub const KNIGHT: u8 = 3;
pub const SILVER: u8 = 4;
pub const GOLD: u8 = 5;
pub const BISHOP: u8 = 6;
pub const ROOK: u8 = 7;
pub const KING: u8 = 8;

pub const PROMOTE_TO: [u8; 15] = [0, 9, 10, 11, 12, 0, 13, 14, 0, 0, 0, 0, 0, 0, 0];
pub const CAPTURED_AS: [u8; 15] = [0, 1, 2, 3, 4, 5, 6, 7, 0, 1, 2, 3, 4, 6, 7];

const DIRF: [i32; 8] = [0, -1, -1, -1, 0, 1, 1, 1];
const DIRR: [i32; 8] = [-1, -1, 0, 1, 1, 1, 0, -1];
const BLACK_MOVES: [[u8; 8]; 15] = [
    [0; 8],
    [1, 0, 0, 0, 0, 0, 0, 0],
    [2, 0, 0, 0, 0, 0, 0, 0],
    [0, 0, 0, 0, 0, 0, 0, 0],
    [1, 1, 0, 1, 0, 1, 0, 1],
    [1, 1, 1, 0, 1, 0, 1, 1],
    [0, 2, 0, 2, 0, 2, 0, 2],
    [2, 0, 2, 0, 2, 0, 2, 0],
    [1, 1, 1, 1, 1, 1, 1, 1],
    [1, 1, 1, 0, 1, 0, 1, 1],
    [1, 1, 1, 0, 1, 0, 1, 1],
    [1, 1, 1, 0, 1, 0, 1, 1],
    [1, 1, 1, 0, 1, 0, 1, 1],
    [1, 2, 1, 2, 1, 2, 1, 2],
    [2, 1, 2, 1, 2, 1, 2, 1],
];

/// Position: squares 1..=81 (0 unused), piece codes 1..=28, colours 0/1 (1/2 in the TLA+ text).
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Pos {
    pub b: [u8; 82],
    pub h: [[u8; 8]; 2],
    pub c: usize,
    pub ply: u32,
}

pub struct Tables {
    pub ray: Vec<[Vec<u8>; 8]>,
    pub knight_to: Vec<[Vec<u8>; 2]>,
    pub moves: [[u8; 8]; 29],
}

pub fn file(s: u8) -> u8 {
    (s - 1) / 9 + 1
}
pub fn rank(s: u8) -> u8 {
    (s - 1) % 9 + 1
}
pub fn sq(f: u8, r: u8) -> u8 {
    (f - 1) * 9 + r
}
pub fn kind(p: u8) -> u8 {
    (p - 1) % 14 + 1
}
pub fn col(p: u8) -> usize {
    ((p - 1) / 14) as usize
}
pub fn piece(k: u8, c: usize) -> u8 {
    k + 14 * c as u8
}
pub fn turn(d: usize) -> usize {
    (d + 4) % 8
}
pub fn rel_rank(s: u8, c: usize) -> u8 {
    if c == 0 {
        rank(s)
    } else {
        10 - rank(s)
    }
}
pub fn in_zone(s: u8, c: usize) -> bool {
    rel_rank(s, c) <= 3
}
pub fn dead_end(k: u8, c: usize, s: u8) -> bool {
    ((k == PAWN || k == LANCE) && rel_rank(s, c) == 1) || (k == KNIGHT && rel_rank(s, c) <= 2)
}

impl Tables {
    fn new() -> Tables {
        let on = |f: i32, r: i32| (1..=9).contains(&f) && (1..=9).contains(&r);
        let mut ray = vec![];
        let mut knight_to = vec![];
        for s in 0..82u8 {
            let mut rs: [Vec<u8>; 8] = Default::default();
            let mut kn: [Vec<u8>; 2] = Default::default();
            if s > 0 {
                for d in 0..8 {
                    let (mut f, mut r) = (file(s) as i32 + DIRF[d], rank(s) as i32 + DIRR[d]);
                    while on(f, r) {
                        rs[d].push(sq(f as u8, r as u8));
                        f += DIRF[d];
                        r += DIRR[d];
                    }
                }
                for c in 0..2 {
                    let r = rank(s) as i32 + if c == 0 { -2 } else { 2 };
                    for df in [-1, 1] {
                        let f = file(s) as i32 + df;
                        if on(f, r) {
                            kn[c].push(sq(f as u8, r as u8));
                        }
                    }
                }
            }
            ray.push(rs);
            knight_to.push(kn);
        }
        let mut moves = [[0; 8]; 29];
        for p in 1..29u8 {
            for d in 0..8 {
                moves[p as usize][d] = BLACK_MOVES[kind(p) as usize][if col(p) == 0 { d } else { turn(d) }];
            }
        }
        Tables { ray, knight_to, moves }
    }
}

pub fn tb() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(Tables::new)
}

fn first_hit(b: &[u8; 82], ray: &[u8]) -> usize {
    ray.iter().position(|&s| b[s as usize] != 0).unwrap_or(ray.len())
}

pub fn reach(b: &[u8; 82], s: u8, out: &mut Vec<u8>) {
    let t = tb();
    let p = b[s as usize];
    if kind(p) == KNIGHT {
        out.extend(&t.knight_to[s as usize][col(p)]);
    }
    for d in 0..8 {
        let m = t.moves[p as usize][d];
        if m == 0 {
            continue;
        }
        let ray = &t.ray[s as usize][d];
        let n = if m == 1 { ray.len().min(1) } else { (first_hit(b, ray) + 1).min(ray.len()) };
        out.extend(&ray[..n]);
    }
}

pub fn attacked(b: &[u8; 82], s: u8, c: usize) -> bool {
    let t = tb();
    for d in 0..8 {
        let ray = &t.ray[s as usize][d];
        let i = first_hit(b, ray);
        if i < ray.len() {
            let p = b[ray[i] as usize];
            if col(p) == c {
                let m = t.moves[p as usize][turn(d)];
                if m == 2 || (m == 1 && i == 0) {
                    return true;
                }
            }
        }
    }
    t.knight_to[s as usize][1 - c].iter().any(|&q| b[q as usize] == piece(KNIGHT, c))
}

/// Squares from which colour c attacks s.
pub fn attackers(b: &[u8; 82], s: u8, c: usize) -> Vec<u8> {
    let t = tb();
    let mut v = vec![];
    for d in 0..8 {
        let ray = &t.ray[s as usize][d];
        let i = first_hit(b, ray);
        if i < ray.len() {
            let p = b[ray[i] as usize];
            if col(p) == c {
                let m = t.moves[p as usize][turn(d)];
                if m == 2 || (m == 1 && i == 0) {
                    v.push(ray[i]);
                }
            }
        }
    }
    v.extend(t.knight_to[s as usize][1 - c].iter().filter(|&&q| b[q as usize] == piece(KNIGHT, c)));
    v
}

pub fn king_sq(b: &[u8; 82], c: usize) -> u8 {
    let k = piece(KING, c);
    b.iter().skip(1).position(|&x| x == k).map_or(0, |i| i as u8 + 1)
}

pub fn king_attacked(b: &[u8; 82], c: usize) -> bool {
    let k = king_sq(b, c);
    k != 0 && attacked(b, k, 1 - c)
}

pub fn board_move(from: u8, to: u8, pr: bool) -> u32 {
    10000 * pr as u32 + from as u32 * 100 + to as u32
}
pub fn drop_move(k: u8, to: u8) -> u32 {
    20000 + k as u32 * 100 + to as u32
}
pub fn is_drop(m: u32) -> bool {
    m >= 20000
}
pub fn is_promo(m: u32) -> bool {
    (10000..20000).contains(&m)
}
pub fn m_to(m: u32) -> u8 {
    (m % 100) as u8
}
pub fn m_from(m: u32) -> u8 {
    (m / 100 % 100) as u8
}

pub fn pawn_on_file(b: &[u8; 82], c: usize, f: u8) -> bool {
    (1..=9).any(|r| b[sq(f, r) as usize] == piece(PAWN, c))
}

pub fn board_after(b: &[u8; 82], c: usize, m: u32) -> [u8; 82] {
    let mut n = *b;
    if is_drop(m) {
        n[m_to(m) as usize] = piece(m_from(m), c);
    } else {
        let p = b[m_from(m) as usize];
        n[m_from(m) as usize] = 0;
        n[m_to(m) as usize] = if is_promo(m) { piece(PROMOTE_TO[kind(p) as usize], c) } else { p };
    }
    n
}

impl Pos {
    pub fn empty() -> Pos {
        Pos { b: [0; 82], h: [[0; 8]; 2], c: 0, ply: 1 }
    }
    pub fn start() -> Pos {
        let mut p = Pos::empty();
        let back = [LANCE, KNIGHT, SILVER, GOLD, KING, GOLD, SILVER, KNIGHT, LANCE];
        for f in 1..=9u8 {
            p.b[sq(f, 1) as usize] = piece(back[f as usize - 1], 1);
            p.b[sq(f, 9) as usize] = piece(back[f as usize - 1], 0);
            p.b[sq(f, 3) as usize] = piece(PAWN, 1);
            p.b[sq(f, 7) as usize] = piece(PAWN, 0);
        }
        p.b[sq(8, 2) as usize] = piece(ROOK, 1);
        p.b[sq(2, 2) as usize] = piece(BISHOP, 1);
        p.b[sq(2, 8) as usize] = piece(ROOK, 0);
        p.b[sq(8, 8) as usize] = piece(BISHOP, 0);
        p
    }
    /// Both kings are there, or at most n moves are possible.
    pub fn fits(&self, n: usize) -> bool {
        if king_sq(&self.b, 0) != 0 && king_sq(&self.b, 1) != 0 {
            return true;
        }
        let mut v = vec![];
        self.pseudo(&mut v);
        v.len() <= n
    }
    pub fn pseudo(&self, out: &mut Vec<u32>) {
        let c = self.c;
        let mut dest = Vec::with_capacity(20);
        for s in 1..=81u8 {
            let p = self.b[s as usize];
            if p == 0 || col(p) != c {
                continue;
            }
            dest.clear();
            reach(&self.b, s, &mut dest);
            let k = kind(p);
            for &t in &dest {
                let q = self.b[t as usize];
                if q != 0 && col(q) == c {
                    continue;
                }
                let may = PROMOTE_TO[k as usize] != 0 && (in_zone(s, c) || in_zone(t, c));
                if may {
                    out.push(board_move(s, t, true));
                }
                if !(may && dead_end(k, c, t)) {
                    out.push(board_move(s, t, false));
                }
            }
        }
        for k in 1..=7u8 {
            if self.h[c][k as usize] == 0 {
                continue;
            }
            for f in 1..=9u8 {
                if k == PAWN && pawn_on_file(&self.b, c, f) {
                    continue;
                }
                for r in 1..=9u8 {
                    let s = sq(f, r);
                    if self.b[s as usize] == 0 && !dead_end(k, c, s) {
                        out.push(drop_move(k, s));
                    }
                }
            }
        }
    }
    pub fn apply(&self, m: u32) -> Pos {
        let mut n = self.clone();
        n.b = board_after(&self.b, self.c, m);
        if is_drop(m) {
            n.h[self.c][m_from(m) as usize] -= 1;
        } else {
            let q = self.b[m_to(m) as usize];
            if q != 0 {
                n.h[self.c][CAPTURED_AS[kind(q) as usize] as usize] += 1;
            }
        }
        n.c = 1 - self.c;
        n.ply += 1;
        n
    }
    pub fn in_check(&self) -> bool {
        king_attacked(&self.b, self.c)
    }
    pub fn safe(&self, ks: u8, m: u32) -> bool {
        if ks == 0 {
            return true;
        }
        let k = if !is_drop(m) && m_from(m) == ks { m_to(m) } else { ks };
        !attacked(&board_after(&self.b, self.c, m), k, 1 - self.c)
    }
    pub fn gives_check(&self, oks: u8, m: u32) -> bool {
        oks != 0 && attacked(&board_after(&self.b, self.c, m), oks, self.c)
    }
    pub fn no_escape(&self) -> bool {
        let ks = king_sq(&self.b, self.c);
        let mut v = Vec::with_capacity(128);
        self.pseudo(&mut v);
        !v.iter().any(|&m| self.safe(ks, m))
    }
    pub fn is_pawn_drop(m: u32) -> bool {
        is_drop(m) && m_from(m) == PAWN
    }
    /// (pseudo-legal count, legal moves sorted, legal moves giving check sorted)
    pub fn analyse(&self) -> Analysis {
        let ks = king_sq(&self.b, self.c);
        let oks = king_sq(&self.b, 1 - self.c);
        let mut v = Vec::with_capacity(256);
        self.pseudo(&mut v);
        v.sort_unstable();
        let mut a = Analysis { chk: self.in_check(), pseudo: v.len(), ..Default::default() };
        for &m in &v {
            if !self.safe(ks, m) {
                a.unsafe_moves += 1;
                continue;
            }
            let g = self.gives_check(oks, m);
            if g && Pos::is_pawn_drop(m) {
                a.pawn_drop_check = Some(m);
                if self.apply(m).no_escape() {
                    a.pawn_drop_mate = true;
                    continue;
                }
            }
            a.legal.push(m);
            if g {
                a.gives.push(m);
            }
        }
        a
    }
    pub fn legal(&self) -> Vec<u32> {
        self.analyse().legal
    }
    pub fn perft(&self, d: usize) -> u64 {
        if d == 0 {
            return 1;
        }
        let l = self.legal();
        if d == 1 {
            return l.len() as u64;
        }
        l.iter().map(|&m| self.apply(m).perft(d - 1)).sum()
    }
    pub fn valid(&self) -> bool {
        for c in 0..2 {
            for f in 1..=9u8 {
                if (1..=9).filter(|&r| self.b[sq(f, r) as usize] == piece(PAWN, c)).count() > 1 {
                    return false;
                }
            }
            if self.b.iter().skip(1).filter(|&&x| x == piece(KING, c)).count() > 1 {
                return false;
            }
        }
        for s in 1..=81u8 {
            let p = self.b[s as usize];
            if p != 0 && dead_end(kind(p), col(p), s) {
                return false;
            }
        }
        !king_attacked(&self.b, 1 - self.c)
    }
    pub fn material(&self, k: u8) -> u32 {
        self.b.iter().skip(1).filter(|&&p| p != 0 && CAPTURED_AS[kind(p) as usize] == k).count() as u32
            + self.h[0][k as usize] as u32
            + self.h[1][k as usize] as u32
    }
    pub fn turned(&self) -> Pos {
        let mut n = self.clone();
        for s in 1..=81usize {
            let p = self.b[82 - s];
            n.b[s] = if p == 0 { 0 } else { piece(kind(p), 1 - col(p)) };
        }
        n.h = [self.h[1], self.h[0]];
        n.c = 1 - self.c;
        n
    }
    pub fn mirrored(&self) -> Pos {
        let mut n = self.clone();
        for s in 1..=81u8 {
            n.b[s as usize] = self.b[mirror_sq(s) as usize];
        }
        n
    }
}

pub fn mirror_sq(s: u8) -> u8 {
    sq(10 - file(s), rank(s))
}
fn map_move(m: u32, f: impl Fn(u8) -> u8) -> u32 {
    if is_drop(m) {
        drop_move(m_from(m), f(m_to(m)))
    } else {
        board_move(f(m_from(m)), f(m_to(m)), is_promo(m))
    }
}
pub fn turn_move(m: u32) -> u32 {
    map_move(m, |s| 82 - s)
}
pub fn mirror_move(m: u32) -> u32 {
    map_move(m, mirror_sq)
}

#[derive(Clone, Default, Debug)]
pub struct Analysis {
    pub chk: bool,
    pub pseudo: usize,
    pub unsafe_moves: usize,
    pub legal: Vec<u32>,
    pub gives: Vec<u32>,
    pub pawn_drop_check: Option<u32>,
    pub pawn_drop_mate: bool,
}
