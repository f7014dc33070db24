//! Two positions that share a key: looked for among very many positions, and worked out from the
//! contribution of every single piece, piece in hand and the side to move. Whatever is found is a pair
//! of positions whose keys the library itself gave; TLC judges it.
use crate::exec::*;
use crate::gen::Rng;
use crate::keys::key_of;
use crate::model::*;
use crate::script::Run;
use crate::{trace_json, Args};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const FULL: [u32; 8] = [0, 18, 4, 4, 4, 4, 2, 2];

/// Which of the three keys, as `keys().0`, `keys().1`, `key()`.
#[derive(Clone, Copy, PartialEq)]
enum Key {
    Board,
    Hand,
    Both,
}
fn pick(k: Key, p: &Pos) -> Option<u64> {
    key_of(p).map(|x| match k {
        Key::Board => x.1,
        Key::Hand => x.2,
        Key::Both => x.0,
    })
}
fn must_differ(k: Key, p: &Pos, q: &Pos) -> bool {
    let b = p.b != q.b || p.c != q.c;
    match k {
        Key::Board => b,
        Key::Hand => p.h != q.h,
        Key::Both => b || p.h != q.h,
    }
}
fn ok(p: &Pos) -> bool {
    p.valid() && (1..=7).all(|k| p.material(k) <= FULL[k as usize])
}

/// What can be different between two positions.
#[derive(Clone, Copy, Debug)]
enum Part {
    Side,
    Piece(u8, u8),
    Hand(usize, u8, u8, u8),
}

fn parts() -> (Vec<Part>, Vec<Part>) {
    let (mut b, mut h) = (vec![Part::Side], vec![]);
    for s in 1..=81u8 {
        for x in 1..=28u8 {
            if !dead_end(kind(x), col(x), s) {
                b.push(Part::Piece(s, x));
            }
        }
    }
    for c in 0..2 {
        for k in 1..=7u8 {
            for m in 1..=FULL[k as usize] as u8 {
                for n in 0..m {
                    h.push(Part::Hand(c, k, n, m));
                }
            }
        }
    }
    (b, h)
}
/// by how much the keys of two positions differ that differ in this part only
fn weight(x: Part) -> Option<(u64, u64, u64)> {
    let (mut p, mut q) = (Pos::empty(), Pos::empty());
    match x {
        Part::Side => q.c = 1,
        Part::Piece(s, x) => {
            q.b[s as usize] = x;
        }
        Part::Hand(c, k, n, m) => {
            p.h[c][k as usize] = n;
            q.h[c][k as usize] = m;
        }
    }
    let (a, b) = (key_of(&p)?, key_of(&q)?);
    Some((a.0 ^ b.0, a.1 ^ b.1, a.2 ^ b.2))
}
/// Positions P and Q that differ in exactly these parts.
fn realise(d: &[Part]) -> Option<(Pos, Pos)> {
    for split in 0..1u32 << d.len() {
        for side in 0..2 {
            let (mut p, mut q) = (Pos::empty(), Pos::empty());
            p.c = side;
            q.c = side;
            let mut good = true;
            for (i, x) in d.iter().enumerate() {
                let (a, b) = if split >> i & 1 == 0 { (&mut p, &mut q) } else { (&mut q, &mut p) };
                match *x {
                    Part::Side => {
                        if side == 1 {
                            good = false;
                        }
                        q.c = 1;
                    }
                    Part::Piece(s, x) => {
                        good &= a.b[s as usize] == 0;
                        a.b[s as usize] = x;
                    }
                    Part::Hand(c, k, n, m) => {
                        good &= a.h[c][k as usize] == 0 && b.h[c][k as usize] == 0;
                        a.h[c][k as usize] = n;
                        b.h[c][k as usize] = m;
                    }
                }
            }
            if good && ok(&p) && ok(&q) {
                return Some((p, q));
            }
        }
    }
    None
}

struct Found<'a> {
    n: AtomicUsize,
    max: usize,
    dir: &'a str,
    seed: u64,
    seen: Mutex<()>,
}
impl Found<'_> {
    fn full(&self) -> bool {
        self.n.load(Ordering::Relaxed) >= self.max
    }
    /// true: they do share the key
    fn pair(&self, k: Key, p: &Pos, q: &Pos) -> bool {
        if !must_differ(k, p, q) || pick(k, p) != pick(k, q) {
            return false;
        }
        let _l = self.seen.lock().unwrap();
        let n = self.n.load(Ordering::Relaxed);
        if n < self.max {
            let mut r = Run::new(13, 0, 0, true);
            r.go(Op::New { o: 0, src: Box::new(p.clone()), dflt: false, via: None });
            r.go(Op::New { o: 1, src: Box::new(q.clone()), dflt: false, via: None });
            let t = format!("{}\n", trace_json(&format!("s{}pair{n}", self.seed), &r.evs));
            std::fs::write(format!("{}/cand{n}.ndjson", self.dir), &t).unwrap();
            std::fs::write(format!("{}/cand{n}.full", self.dir), &t).unwrap();
            let what = match k {
                Key::Board => "first",
                Key::Hand => "second",
                Key::Both => "combined",
            };
            std::fs::write(format!("{}/cand{n}.why", self.dir), format!("C13 {what} key shared")).unwrap();
            self.n.store(n + 1, Ordering::Relaxed);
        }
        true
    }
}

/// Sets of up to 2*most parts whose weights cancel.
fn cancel(k: Key, es: &[(Part, u64)], most: usize, f: &Found) -> u64 {
    let n = es.len();
    let none = u16::MAX;
    let mut v: Vec<(u64, [u16; 3])> = vec![(0, [none; 3])];
    for i in 0..n {
        v.push((es[i].1, [i as u16, none, none]));
        for j in i + 1..n {
            let x = es[i].1 ^ es[j].1;
            v.push((x, [i as u16, j as u16, none]));
            if most > 2 {
                for l in j + 1..n {
                    v.push((x ^ es[l].1, [i as u16, j as u16, l as u16]));
                }
            }
        }
    }
    v.sort_unstable();
    let mut tries = 0;
    let mut i = 0;
    while i < v.len() && tries < 20_000 && !f.full() {
        let mut j = i + 1;
        while j < v.len() && v[j].0 == v[i].0 {
            j += 1;
        }
        for a in i..j.min(i + 40) {
            for b in a + 1..j.min(i + 40) {
                let mut d: Vec<u16> = vec![];
                for &x in v[a].1.iter().chain(&v[b].1).filter(|&&x| x != none) {
                    match d.iter().position(|&y| y == x) {
                        Some(at) => {
                            d.swap_remove(at);
                        }
                        None => d.push(x),
                    }
                }
                if d.is_empty() {
                    continue;
                }
                tries += 1;
                let ps: Vec<Part> = d.iter().map(|&x| es[x as usize].0).collect();
                if let Some((p, q)) = realise(&ps) {
                    f.pair(k, &p, &q);
                }
            }
        }
        i = j;
    }
    v.len() as u64
}

/// A position made in no time: a few pieces, no kings, anything in hand.
fn quick(seed: u64, i: u64) -> Pos {
    let mut r = Rng::new(seed.wrapping_mul(0x1_0000_0000).wrapping_add(i) ^ 0x5bd1_e995);
    let mut p = Pos::empty();
    let mut left = FULL;
    for _ in 0..r.range(1, 7) {
        let x = r.range(1, 28) as u8;
        let s = r.range(1, 81) as u8;
        let (k, c) = (kind(x), col(x));
        let base = CAPTURED_AS[k as usize] as usize;
        if base == 0 || p.b[s as usize] != 0 || left[base] == 0 || dead_end(k, c, s) || k == PAWN && pawn_on_file(&p.b, c, file(s)) {
            continue;
        }
        p.b[s as usize] = x;
        left[base] -= 1;
    }
    if i % 2 == 0 {
        for (k, n) in left.iter().enumerate().skip(1) {
            let a = r.below(*n as usize + 1);
            p.h[0][k] = a as u8;
            p.h[1][k] = r.below(*n as usize - a + 1) as u8;
        }
    }
    p.c = r.below(2);
    p
}

pub fn collide(a: &Args) {
    let seed = a.num("--seed", 1);
    let secs = a.num("--time", 4);
    let threads = a.num("--threads", 8) as usize;
    let f = Found {
        n: AtomicUsize::new(0),
        max: a.num("--cands", 4) as usize,
        dir: a.get("--dir").unwrap(),
        seed,
        seen: Mutex::new(()),
    };
    let (bs, hs) = parts();
    let sums = AtomicU64::new(0);
    let mut made = 0;
    let weigh = |v: &[Part]| -> Option<Vec<(Part, (u64, u64, u64))>> { v.iter().map(|&x| Some((x, weight(x)?))).collect() };
    if let (Some(bw), Some(hw)) = (weigh(&bs), weigh(&hs)) {
        let b0: Vec<(Part, u64)> = bw.iter().map(|x| (x.0, x.1 .0)).collect();
        let b2: Vec<(Part, u64)> = bw.iter().chain(&hw).map(|x| (x.0, x.1 .2)).collect();
        let h1: Vec<(Part, u64)> = hw.iter().map(|x| (x.0, x.1 .1)).collect();
        // weights that do not depend on what else there is: each kind of piece at each square
        let end = Instant::now() + Duration::from_secs(secs / 2);
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| loop {
                    let t = next.fetch_add(1, Ordering::Relaxed);
                    if f.full() || t > 3 && Instant::now() > end {
                        break;
                    }
                    let mut r = Rng::new(seed * 1_000_003 + t);
                    let mut some = |v: &[(Part, u64)], n: usize| -> Vec<(Part, u64)> {
                        // of all, or of a few squares, or of a few pieces
                        let how = r.below(3);
                        let (sq, pc): (Vec<u8>, Vec<u8>) =
                            ((0..12).map(|_| r.range(1, 81) as u8).collect(), (0..5).map(|_| r.range(1, 28) as u8).collect());
                        let mut w: Vec<(Part, u64)> = v
                            .iter()
                            .filter(|x| match x.0 {
                                Part::Piece(s, x) => how == 0 || how == 1 && sq.contains(&s) || how == 2 && pc.contains(&x),
                                _ => true,
                            })
                            .copied()
                            .collect();
                        while w.len() > n {
                            let i = r.below(w.len());
                            w.swap_remove(i);
                        }
                        w
                    };
                    let n = match t {
                        0 => cancel(Key::Board, &b0, 2, &f),
                        1 => cancel(Key::Both, &b2, 2, &f),
                        2 => cancel(Key::Hand, &h1, 2, &f),
                        3 => cancel(Key::Hand, &some(&h1, 400), 3, &f),
                        _ if t % 2 == 0 => cancel(Key::Board, &some(&b0, 360), 3, &f),
                        _ => cancel(Key::Both, &some(&b2, 360), 3, &f),
                    };
                    sums.fetch_add(n, Ordering::Relaxed);
                });
            }
        });
    }
    // whole positions, whatever their keys are made of
    if !f.full() {
        let end = Instant::now() + Duration::from_millis(secs * 500);
        let next = AtomicU64::new(0);
        let all: Mutex<[Vec<(u64, u64)>; 3]> = Mutex::new([vec![], vec![], vec![]]);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    let mut m: [Vec<(u64, u64)>; 3] = [vec![], vec![], vec![]];
                    while Instant::now() < end && m[0].len() < 4_000_000 {
                        let i0 = next.fetch_add(1000, Ordering::Relaxed);
                        for i in i0..i0 + 1000 {
                            let p = quick(seed, i);
                            if let Some(k) = key_of(&p) {
                                m[0].push((k.1, i));
                                m[1].push((k.2, i));
                                m[2].push((k.0, i));
                            }
                        }
                    }
                    let mut g = all.lock().unwrap();
                    for (x, y) in g.iter_mut().zip(m) {
                        x.extend(y);
                    }
                });
            }
        });
        let all = all.into_inner().unwrap();
        made = all[0].len() as u64;
        std::thread::scope(|s| {
            for (k, mut v) in [Key::Board, Key::Hand, Key::Both].into_iter().zip(all) {
                let f = &f;
                s.spawn(move || {
                    v.sort_unstable();
                    let mut i = 0;
                    while i + 1 < v.len() && !f.full() {
                        if v[i].0 == v[i + 1].0 {
                            // most are the same position twice
                            f.pair(k, &quick(seed, v[i].1), &quick(seed, v[i + 1].1));
                        }
                        i += 1;
                    }
                });
            }
        });
    }
    let s = sums.load(Ordering::Relaxed);
    println!(
        "{{\"chunks\":1,\"events\":{made},\"sums\":{s},\"nontrivial\":{made},\"distinct\":{made},\"candidates\":{}}}",
        f.n.load(Ordering::Relaxed)
    );
}
