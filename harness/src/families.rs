//! Exhaustive families of positions. A family is a numbered, finite set; a search goes through it
//! block by block in a scattered order, so that a short one sees a fair part and a long one all.
use crate::model::*;
use std::sync::OnceLock;

pub struct Family {
    pub name: &'static str,
    pub len: u64,
    make: fn(u64) -> Option<Pos>,
}
pub const BLOCK: u64 = 256;

/// non-king kinds
const PK: [u8; 13] = [1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14];
const SLIDERS: [u8; 5] = [LANCE, BISHOP, ROOK, 13, 14];

struct Digits(u64);
impl Digits {
    fn take(&mut self, n: usize) -> usize {
        let d = self.0 % n as u64;
        self.0 /= n as u64;
        d as usize
    }
}
fn any_piece(i: usize) -> u8 {
    // 26 non-king pieces
    piece(PK[i % 13], i / 13)
}
fn done(p: Pos) -> Option<Pos> {
    p.valid().then_some(p)
}

/// (king, nearer, farther): three squares in line, in this order
fn lines() -> &'static Vec<(u8, u8, u8)> {
    static L: OnceLock<Vec<(u8, u8, u8)>> = OnceLock::new();
    L.get_or_init(|| {
        let mut v = vec![];
        for k in 1..=81u8 {
            for d in 0..8 {
                let ray = &tb().ray[k as usize][d];
                for i in 0..ray.len() {
                    for j in i + 1..ray.len() {
                        v.push((k, ray[i], ray[j]));
                    }
                }
            }
        }
        v
    })
}
/// for every square of a Black king: the White pieces that attack it from somewhere
fn checks() -> &'static Vec<Vec<(u8, u8)>> {
    static L: OnceLock<Vec<Vec<(u8, u8)>>> = OnceLock::new();
    L.get_or_init(|| {
        (0..82u8)
            .map(|k| {
                let mut v = vec![];
                for s in 1..=81u8 {
                    for &x in &PK {
                        if k == 0 || s == k || dead_end(x, 1, s) {
                            continue;
                        }
                        let mut b = [0; 82];
                        b[s as usize] = piece(x, 1);
                        if attacked(&b, k, 1) {
                            v.push((s, piece(x, 1)));
                        }
                    }
                }
                v
            })
            .collect()
    })
}
/// flattened: (king, attacker's square, attacker)
fn check_list() -> &'static Vec<(u8, u8, u8)> {
    static L: OnceLock<Vec<(u8, u8, u8)>> = OnceLock::new();
    L.get_or_init(|| (1..=81u8).flat_map(|k| checks()[k as usize].iter().map(move |&(s, x)| (k, s, x))).collect())
}
/// (king, two attackers)
fn double_list() -> &'static Vec<(u8, u8, u8, u8, u8)> {
    static L: OnceLock<Vec<(u8, u8, u8, u8, u8)>> = OnceLock::new();
    L.get_or_init(|| {
        let mut v = vec![];
        for k in 1..=81u8 {
            let c = &checks()[k as usize];
            for i in 0..c.len() {
                for j in i + 1..c.len() {
                    if c[i].0 != c[j].0 {
                        v.push((k, c[i].0, c[i].1, c[j].0, c[j].1));
                    }
                }
            }
        }
        v
    })
}
fn hand(bits: usize) -> [u8; 8] {
    let mut h = [0; 8];
    for (k, x) in h.iter_mut().enumerate().skip(1) {
        *x = (bits >> (k - 1) & 1) as u8;
    }
    h
}

/// one piece, with no king, or kings in four places
fn lone(i: u64) -> Option<Pos> {
    let mut d = Digits(i);
    let mut p = Pos::empty();
    p.c = d.take(2);
    let x = d.take(28) as u8 + 1;
    let s = d.take(81) as u8 + 1;
    let ks = [(0, 0), (1, 81), (81, 1), (9, 73), (41, 3), (77, 37), (0, 45), (45, 0)][d.take(8)];
    for (c, k) in [(0, ks.0), (1, ks.1)] {
        if k != 0 {
            if kind(x) == KING && col(x) == c {
                continue;
            }
            p.b[k as usize] = piece(KING, c);
        }
    }
    if p.b[s as usize] != 0 {
        return None;
    }
    p.b[s as usize] = x;
    done(p)
}
/// two pieces, any: moves onto, past and up to one another
fn two(i: u64) -> Option<Pos> {
    let mut d = Digits(i);
    let mut p = Pos::empty();
    p.c = d.take(2);
    let (x, s) = (d.take(28) as u8 + 1, d.take(81) as u8 + 1);
    let (y, t) = (d.take(28) as u8 + 1, d.take(81) as u8 + 1);
    if s >= t {
        return None;
    }
    p.b[s as usize] = x;
    p.b[t as usize] = y;
    done(p)
}
/// a king, any piece and a slider of either side behind it: pins and discovered checks
fn line(i: u64) -> Option<Pos> {
    let l = lines();
    let mut d = Digits(i);
    let mut p = Pos::empty();
    p.c = d.take(2);
    let kc = d.take(2);
    let (k, s, t) = l[d.take(l.len())];
    let x = any_piece(d.take(26));
    let y = piece(SLIDERS[d.take(5)], d.take(2));
    p.b[k as usize] = piece(KING, kc);
    p.b[s as usize] = x;
    p.b[t as usize] = y;
    p.h[0] = hand(0b0000001);
    p.h[1] = hand(0b0000001);
    done(p)
}
fn black_king(d: &mut Digits, mut p: Pos) -> Option<Pos> {
    // everything is made with a Black king to move and turned round for White
    let turn = d.take(2) == 1;
    if turn {
        p = p.turned();
    }
    done(p)
}
/// a king in check from one piece, and one piece of its own anywhere: all answers
fn defence(i: u64) -> Option<Pos> {
    let l = check_list();
    let mut d = Digits(i);
    let (k, s, x) = l[d.take(l.len())];
    let y = PK[d.take(13)];
    let t = d.take(81);
    let h = [0b1111111, 0b0000001, 0b0000100, 0b0000010][d.take(4)];
    let mut p = Pos::empty();
    p.b[k as usize] = KING;
    p.b[s as usize] = x;
    if p.b[t + 1] != 0 {
        return None;
    }
    p.b[t + 1] = y;
    p.h[0] = hand(h);
    black_king(&mut d, p)
}
/// a king in check from one piece, and another enemy piece anywhere: where can it go
fn flight(i: u64) -> Option<Pos> {
    let l = check_list();
    let mut d = Digits(i);
    let (k, s, x) = l[d.take(l.len())];
    let y = any_piece(13 + d.take(13));
    let t = d.take(81);
    let mut p = Pos::empty();
    p.b[k as usize] = KING;
    p.b[s as usize] = x;
    if p.b[t + 1] != 0 {
        return None;
    }
    p.b[t + 1] = y;
    p.h[0] = hand(0b1000000);
    black_king(&mut d, p)
}
/// a king attacked by two pieces
fn double(i: u64) -> Option<Pos> {
    let l = double_list();
    let mut d = Digits(i);
    let (k, s, x, t, y) = l[d.take(l.len())];
    let mut p = Pos::empty();
    p.b[k as usize] = KING;
    p.b[s as usize] = x;
    p.b[t as usize] = y;
    // something to interpose with, so that not being allowed to matters
    p.h[0] = hand(0b1010101);
    black_king(&mut d, p)
}
/// a king whose neighbours are free or its own, and the square before it guarded by the enemy,
/// who has a pawn to drop there
fn cage(d: &mut Digits) -> Option<Pos> {
    let k = d.take(81) as u8 + 1;
    let mut p = Pos::empty();
    p.c = 1;
    p.b[k as usize] = KING;
    for dir in 1..8 {
        let blocked = d.take(2) == 1;
        match tb().ray[k as usize][dir].first() {
            Some(&s) if blocked => p.b[s as usize] = LANCE,
            None if blocked => return None,
            _ => {}
        }
    }
    let ray = &tb().ray[k as usize][0];
    let guard = d.take(4);
    if guard < 3 {
        let &s = ray.get(1)?;
        p.b[s as usize] = piece([GOLD, SILVER, KING][guard], 1);
    } else {
        let &t = ray.first()?;
        let &s = tb().knight_to[t as usize][0].first()?;
        if p.b[s as usize] != 0 {
            return None;
        }
        p.b[s as usize] = piece(KNIGHT, 1);
    }
    p.h[1] = hand(0b0000001);
    Some(p)
}
/// .. and one piece more on the king's side
fn ring(i: u64) -> Option<Pos> {
    let mut d = Digits(i);
    let mut p = cage(&mut d)?;
    let (x, s) = (PK[d.take(13)], d.take(81) + 1);
    if p.b[s] != 0 {
        return None;
    }
    p.b[s] = x;
    black_king(&mut d, p)
}
/// .. or on the other
fn net(i: u64) -> Option<Pos> {
    let mut d = Digits(i);
    let mut p = cage(&mut d)?;
    let (x, s) = (piece(PK[d.take(13)], 1), d.take(81) + 1);
    if p.b[s] != 0 {
        return None;
    }
    p.b[s] = x;
    black_king(&mut d, p)
}
/// .. or a pinned defender: a piece next to the square and a slider behind it
fn nailed(i: u64) -> Option<Pos> {
    let mut d = Digits(i);
    let mut p = cage(&mut d)?;
    let k = king_sq(&p.b, 0) as usize;
    let dir = d.take(8);
    let ray = &tb().ray[k][dir];
    let n = d.take(4) + 1;
    let x = PK[d.take(13)];
    let y = piece(SLIDERS[d.take(5)], 1);
    let (&s, &t) = (ray.first()?, ray.get(n)?);
    if dir == 0 || p.b[t as usize] != 0 || p.b[s as usize] != 0 {
        return None;
    }
    p.b[s as usize] = x;
    p.b[t as usize] = y;
    black_king(&mut d, p)
}
/// pawns on any set of files, in any of three arrangements
fn files(i: u64) -> Option<Pos> {
    let mut d = Digits(i);
    let mut p = Pos::empty();
    p.c = d.take(2);
    let bits = d.take(512);
    let arr = d.take(9);
    let kings = d.take(2) == 1;
    if kings {
        p.b[sq(5, 9) as usize] = KING;
        p.b[sq(5, 1) as usize] = piece(KING, 1);
    }
    for f in 1..=9u8 {
        let r = match arr {
            0 => 2 + f % 7,
            1 => 8 - f % 7,
            2 => 5,
            n => n as u8 - 1,
        };
        let s = sq(f, r) as usize;
        if p.b[s] != 0 {
            return None;
        }
        // a pawn of the mover, or something that is not one
        p.b[s] = if bits >> (f - 1) & 1 == 1 {
            piece(PAWN, p.c)
        } else {
            [piece(9, p.c), piece(PAWN, 1 - p.c), 0][(f as usize + arr) % 3]
        };
        if r == 2 && p.b[s] == piece(PAWN, 1) || r == 8 && p.b[s] == 1 {
            // fine: it can still move
        }
    }
    p.h[p.c] = hand(0b1111111);
    p.h[p.c][1] = 3;
    done(p)
}
fn ray_sets(k: u8) -> &'static Vec<Vec<u8>> {
    static L: OnceLock<Vec<Vec<Vec<u8>>>> = OnceLock::new();
    // 0: orthogonal, 1: diagonal
    let l = L.get_or_init(|| {
        [[0, 2, 4, 6], [1, 3, 5, 7]]
            .iter()
            .map(|ds| {
                (0..82usize)
                    .map(|s| ds.iter().flat_map(|&d| tb().ray[s][d].iter().copied()).collect())
                    .collect()
            })
            .collect()
    });
    &l[(kind(k) == BISHOP || kind(k) == 13) as usize]
}
/// a slider in the middle of every possible occupation of its lines
fn occupied(i: u64) -> Option<Pos> {
    let mut d = Digits(i);
    let bits = d.take(1 << 16);
    let s = d.take(81) as u8 + 1;
    let x = piece([ROOK, BISHOP, 14, 13][d.take(4)], d.take(2));
    let rays = &ray_sets(x)[s as usize];
    if bits >> rays.len() != 0 {
        return None;
    }
    let mut p = Pos::empty();
    p.c = col(x);
    p.b[s as usize] = x;
    // what stands in the way alternates between own and enemy pieces
    for (j, &t) in rays.iter().enumerate() {
        if bits >> j & 1 == 1 {
            p.b[t as usize] = piece(9, (j + bits.count_ones() as usize) % 2);
        }
    }
    done(p)
}
/// a lance and every occupation of its file, with neighbours on the files next to it
fn lances(i: u64) -> Option<Pos> {
    let mut d = Digits(i);
    let bits = d.take(1 << 8);
    let next = d.take(16);
    let s = d.take(81) as u8 + 1;
    let x = piece(LANCE, d.take(2));
    let mut p = Pos::empty();
    p.c = col(x);
    p.b[s as usize] = x;
    let mut j = 0;
    for r in 1..=9u8 {
        let t = sq(file(s), r);
        if t == s {
            continue;
        }
        if bits >> j & 1 == 1 {
            p.b[t as usize] = piece(9, (j + bits.count_ones() as usize) % 2);
        }
        j += 1;
    }
    for (n, f) in [(0, file(s) as i32 - 1), (1, file(s) as i32 + 1)] {
        if (1..=9).contains(&f) {
            for (b, r) in [(0, 1), (1, 9)] {
                if next >> (2 * n + b) & 1 == 1 {
                    p.b[sq(f as u8, r) as usize] = piece(9, (n + b) % 2);
                }
            }
        }
    }
    done(p)
}
/// every capture: what takes, what is taken, where, with what already in hand
fn capture(i: u64) -> Option<Pos> {
    let mut d = Digits(i);
    let x = PK[d.take(13)];
    let s = d.take(81) as u8 + 1;
    let y = any_piece(13 + d.take(13));
    let n = d.take(4) as u8;
    let mut p = Pos::empty();
    p.b[s as usize] = x;
    if dead_end(x, 0, s) {
        return None;
    }
    let mut v = vec![];
    reach(&p.b, s, &mut v);
    if v.is_empty() {
        return None;
    }
    let t = v[d.take(v.len().max(1)) % v.len()];
    p.b[t as usize] = y;
    let k = CAPTURED_AS[kind(y) as usize] as usize;
    p.h[0][k] = n.min([0, 17, 3, 3, 3, 3, 1, 1][k]);
    p.h[1][k] = (n / 2).min([0, 17 - p.h[0][1], 3 - p.h[0][2].min(3), 0, 0, 0, 0, 0][k]);
    black_king(&mut d, p)
}

pub fn all() -> &'static Vec<Family> {
    static L: OnceLock<Vec<Family>> = OnceLock::new();
    L.get_or_init(|| {
        let f = |name, len, make| Family { name, len, make };
        vec![
            f("lone", 2 * 28 * 81 * 8, lone as fn(u64) -> Option<Pos>),
            f("two", 2 * 28 * 81 * 28 * 81, two),
            f("line", 4 * lines().len() as u64 * 26 * 10, line),
            f("defence", check_list().len() as u64 * 13 * 81 * 4 * 2, defence),
            f("flight", check_list().len() as u64 * 13 * 81 * 2, flight),
            f("double", double_list().len() as u64 * 2, double),
            f("ring", 81 * 128 * 4 * 13 * 81 * 2, ring),
            f("net", 81 * 128 * 4 * 13 * 81 * 2, net),
            f("nailed", 81 * 128 * 4 * 8 * 4 * 13 * 5 * 2, nailed),
            f("files", 2 * 512 * 9 * 2, files),
            f("occupied", (1 << 16) * 81 * 8, occupied),
            f("lances", (1 << 12) * 81 * 2, lances),
            f("capture", 13 * 81 * 13 * 4 * 20 * 2, capture),
        ]
    })
}
impl Family {
    pub fn get(&self, i: u64) -> Option<Pos> {
        (self.make)(i)
    }
    pub fn blocks(&self) -> u64 {
        self.len.div_ceil(BLOCK)
    }
    /// the positions of the n-th block; neighbours in number are far apart
    pub fn block(&self, n: u64) -> impl Iterator<Item = Pos> + '_ {
        let nb = self.blocks();
        (0..BLOCK).filter_map(move |j| {
            let i = j * nb + n;
            if i < self.len {
                self.get(i)
            } else {
                None
            }
        })
    }
}

/// Families a property is decided on, and whether every move is also played and taken back.
pub fn of(prop: u8) -> Vec<(&'static str, bool)> {
    match prop {
        1 => vec![("lone", false), ("two", false), ("line", false), ("defence", false), ("flight", false), ("double", false), ("ring", false), ("net", false), ("nailed", false), ("files", false), ("occupied", false), ("lances", false)],
        2 => vec![("line", false), ("flight", false), ("double", false), ("defence", false)],
        3 => vec![("defence", false), ("flight", false), ("double", false), ("ring", false), ("net", false), ("nailed", false)],
        4 => vec![("files", false), ("defence", false), ("ring", false), ("net", false), ("nailed", false), ("lone", false)],
        5 => vec![("ring", false), ("net", false), ("nailed", false), ("defence", false)],
        6 => vec![("lone", false), ("two", false), ("capture", false), ("line", false)],
        7 => vec![("flight", true), ("line", true), ("two", false), ("double", false), ("net", true), ("lone", true)],
        8 => vec![("line", false), ("two", false), ("ring", false), ("net", false), ("nailed", false), ("lone", false)],
        9 => vec![("capture", true), ("two", true), ("lone", true), ("files", true)],
        10 => vec![("capture", true), ("lone", true), ("line", true), ("defence", true)],
        11 => vec![("line", true), ("capture", true), ("flight", true)],
        12 => vec![("capture", true), ("lone", true), ("two", true)],
        14 => vec![("occupied", false), ("lances", false), ("files", false), ("line", false)],
        15 => vec![("net", true), ("occupied", false), ("double", true), ("files", true)],
        17 => vec![("line", false), ("two", false), ("defence", false), ("occupied", false)],
        18 => vec![("lone", false), ("two", false)],
        19 => vec![("two", true), ("lone", true), ("line", false), ("ring", false), ("net", false), ("nailed", false)],
        _ => vec![],
    }
}
pub fn find(name: &str) -> &'static Family {
    all().iter().find(|f| f.name == name).unwrap()
}
