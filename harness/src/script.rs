//! Generated use of the library: which calls are made, and what is observed after each, for one
//! property. A chunk is a deterministic function of (property, seed, index).
use crate::code::*;
use crate::exec::*;
use crate::gen::{self, Rng, Src, ALL_SRC};
use crate::model::*;

pub const ANY: u8 = 0;
/// chunks from this number on are blocks of families: FAMILY + family * 2^32 + block
pub const FAMILY: u64 = 1 << 48;
/// chunks from this number on are long games and much repeated play
pub const LONG: u64 = 1 << 50;
/// the largest move number of a valid position (one more could not be counted)
const LAST_PLY: u32 = 65534;

/// calls in one chunk
const MOST: usize = 100_000;

pub struct Run {
    pub prop: u8,
    pub rec: bool,
    pub rng: Rng,
    pub ex: Exec,
    pub evs: Vec<Event>,
    pub flagged: Option<(u8, String)>,
    pub heavy: usize,
    pub states: u64,
    pub nontrivial: u64,
    pub chunk: (u64, u64),
    /// keep every costly answer
    full: bool,
    closed: bool,
}

fn weights(prop: u8) -> [usize; 15] {
    // Start Medium Sparse Cluster Lines PawnMate Check MaxMob Hands Mid Edge Mate Dense Biased Bound
    match prop {
        2 => [1, 4, 1, 12, 30, 3, 14, 1, 1, 10, 3, 4, 6, 4, 12],
        3 => [0, 1, 1, 6, 8, 4, 40, 1, 1, 4, 1, 20, 2, 4, 6],
        4 => [1, 6, 2, 5, 4, 4, 10, 6, 30, 10, 3, 3, 6, 10, 2],
        5 => [0, 0, 0, 1, 1, 60, 2, 0, 1, 1, 0, 0, 0, 1, 0],
        6 => [1, 10, 4, 8, 8, 2, 10, 2, 1, 12, 6, 2, 10, 8, 3],
        8 => [1, 6, 3, 16, 30, 8, 8, 1, 2, 10, 4, 2, 6, 5, 10],
        9 | 10 | 12 | 22 => [4, 10, 2, 10, 8, 4, 6, 1, 4, 20, 4, 2, 10, 10, 3],
        15 => [4, 6, 2, 6, 6, 4, 4, 16, 16, 8, 4, 2, 12, 12, 3],
        18 => [4, 10, 6, 8, 8, 4, 10, 4, 16, 8, 6, 3, 10, 12, 4],
        21 => [1, 1, 24, 4, 4, 3, 10, 0, 1, 1, 3, 12, 0, 1, 3],
        _ => [2, 10, 4, 10, 12, 8, 10, 2, 5, 12, 5, 4, 8, 8, 6],
    }
}

pub fn base_mask(prop: u8) -> u8 {
    match prop {
        1 | 2 | 4 | 5 | 6 => LEG,
        3 => LEG | CHK,
        7 => CHK,
        8 => GC | CHK | PRE,
        9 => ST,
        10 => ALL | RP,
        11 => CHK | KEY | LEG | GC | FRESH,
        12 => KEY | FRESH,
        13 => KEY,
        14 | 15 => ALL | PRE,
        16 => ALL | RP,
        17 => CHK | LEG | GC,
        18 => ST | CHK | KEY,
        19 => ALL | FRESH | PRE,
        20 => ALL | RP,
        21 => ST | CHK | KEY,
        22 => ST,
        _ => ALL | FRESH | PRE,
    }
}

fn interesting(prop: u8, nd: &Node) -> bool {
    let a = &nd.an;
    let p = &nd.pos;
    match prop {
        1 | 15 => true,
        2 => a.unsafe_moves > 0,
        3 => a.chk || a.legal.is_empty(),
        4 => p.h[p.c].iter().any(|&n| n > 0),
        5 => a.pawn_drop_check.is_some(),
        6 => a.legal.iter().any(|&m| {
            !is_drop(m) && {
                let k = kind(p.b[m_from(m) as usize]);
                PROMOTE_TO[k as usize] != 0 && (in_zone(m_from(m), p.c) || in_zone(m_to(m), p.c))
            }
        }),
        8 => !a.gives.is_empty(),
        _ => true,
    }
}

impl Run {
    pub fn new(prop: u8, seed: u64, idx: u64, rec: bool) -> Run {
        Run {
            prop,
            rec,
            rng: Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(idx).wrapping_mul(64).wrapping_add(prop as u64)),
            ex: Exec { rp_all: prop != 10, ..Exec::new() },
            evs: vec![],
            flagged: None,
            heavy: 0,
            states: 0,
            nontrivial: 0,
            chunk: (seed, idx),
            full: false,
            closed: false,
        }
    }
    pub fn over(&self) -> bool {
        self.flagged.is_some() || self.ex.dead || self.closed
    }
    /// The library's lists hold 593 moves, enough with both kings on the board. Without a king more
    /// moves may be possible: such positions are outside the domain.
    fn room(&self, op: &Op) -> bool {
        match op {
            Op::New { src, via, .. } => src.fits(593) && via.as_ref().is_none_or(|v| v.0.fits(593)),
            Op::Do { o, m } => self.ex.obj(*o).top().pos.apply(*m).fits(593),
            Op::Line { o, ms } => ms.iter().fold(self.pos(*o), |p, m| p.apply(*m)).fits(593),
            Op::Perft { o, d } => *d < 2 || self.ex.obj(*o).top().pos.fits(400),
            _ => true,
        }
    }
    fn mask(prop: u8, rec: bool, sample: bool, nd: &Node) -> u8 {
        let m = base_mask(prop);
        if !rec {
            return m;
        }
        match prop {
            1..=6 if !(interesting(prop, nd) && sample) => m & !LEG,
            8 if !(interesting(prop, nd) && sample) => m & !GC,
            15 if !sample => m & !LEG,
            19 if !sample => m & !(LEG | GC),
            _ => m,
        }
    }
    /// One call. Returns false when the script should end.
    pub fn go_sym(&mut self, op: Op, sym: Sym) -> bool {
        if self.over() {
            return false;
        }
        if self.evs.len() > MOST || !self.room(&op) {
            self.closed = true;
            return false;
        }
        let (prop, rec) = (self.prop, self.rec);
        // when recording, the costly answers are kept for a sample of the states
        let sample = !rec || {
            let pct = match prop {
                1 => 40,
                2 | 3 | 4 | 6 | 8 => 60,
                5 => 100,
                15 => 8,
                19 => 30,
                _ => 100,
            };
            self.rng.chance(pct)
        };
        let sample = sample || matches!(op, Op::New { .. }) || self.full;
        let quiet = matches!(op, Op::Undo { .. } | Op::Back { .. }) && prop <= 6 && rec && !self.full;
        let pre = base_mask(prop) & PRE != 0;
        let prev_gives = if let Op::Do { o, m } = &op {
            Some(self.ex.obj(*o).top().an.gives.binary_search(m).is_ok())
        } else {
            None
        };
        let dflt = matches!(op, Op::New { dflt: true, .. });
        // C20: which questions are asked first, and again, is left to chance
        let asked = if prop == 20 {
            match self.rng.below(4) {
                0 => ALL,
                1 => 1 << self.rng.below(5),
                _ => self.rng.below(32) as u8,
            }
        } else {
            0
        };
        // repeating a long game takes long
        let far = base_mask(prop) & RP != 0 && self.ex.objs.iter().flatten().any(|o| o.hist.len() > 80) && !self.rng.chance(6);
        let ev = self.ex.step(op, sym, pre, |nd, _| {
            let mut m = Run::mask(prop, rec, sample, nd);
            if quiet {
                m &= !LEG;
            }
            if dflt && prop == 18 {
                m |= LEG;
            }
            if prop == 20 {
                m = asked | (m & RP);
            }
            if far {
                m &= !RP;
            }
            m
        });
        self.states += 1;
        if ev.ob.leg.is_some() || ev.ob.gc.is_some() {
            self.heavy += 1;
        }
        if let Some(Some(ob)) = self.ex.objs.get(obj_of(&ev.op)) {
            if interesting(prop, ob.top()) {
                self.nontrivial += 1;
            }
        }
        // also for a recorded run: what to look at first
        let s = suspicious(&ev, &self.ex, prev_gives);
        self.ex.remember(&ev);
        self.evs.push(ev);
        if !rec {
            if let Some(f) = s.into_iter().find(|f| f.0 == prop || prop == ANY) {
                self.flagged = Some(f);
                return false;
            }
        }
        !self.ex.dead
    }
    pub fn go(&mut self, op: Op) -> bool {
        self.go_sym(op, Sym::None)
    }
    fn an(&self, o: usize) -> Analysis {
        self.ex.obj(o).top().an.clone()
    }
    fn pos(&self, o: usize) -> Pos {
        self.ex.obj(o).top().pos.clone()
    }
    fn depth(&self, o: usize) -> usize {
        self.ex.obj(o).mv.len()
    }
    pub fn source(&mut self) -> Pos {
        let w = weights(self.prop);
        let s = ALL_SRC[self.rng.weighted(&w)];
        let kl = match self.prop {
            19 => self.rng.range(1, 3),
            // stated for positions with both kings (or of the side in question)
            2 | 3 | 5 | 15 | 22 => 0,
            _ => {
                if s != Src::PawnMate && s != Src::Check && s != Src::Mate && self.rng.chance(8) {
                    self.rng.range(1, 3)
                } else {
                    0
                }
            }
        };
        let s = if kl != 0 && matches!(s, Src::PawnMate | Src::Check | Src::Mate) {
            // needs the king that is being taken away: only the attacked side's king must stay
            if self.rng.chance(50) { Src::Cluster } else { Src::Lines }
        } else {
            s
        };
        gen::position(&mut self.rng, s, kl)
    }
    fn rand_do(&mut self, o: usize, style: usize) -> bool {
        let a = self.an(o);
        if a.legal.is_empty() {
            return false;
        }
        let p = self.pos(o);
        if p.ply >= LAST_PLY {
            return false;
        }
        let m = gen::random_move(&mut self.rng, &p, &a, style);
        self.go(Op::Do { o, m })
    }
    /// up to n moves, no question asked in between
    fn line(&mut self, o: usize, n: usize, style: usize) -> bool {
        let mut q = self.pos(o);
        let mut a = self.an(o);
        let mut ms = vec![];
        while ms.len() < n && !a.legal.is_empty() && q.ply < LAST_PLY {
            let st = if self.rng.chance(70) { style } else { self.rng.below(8) };
            let m = gen::random_move(&mut self.rng, &q, &a, st);
            q = q.apply(m);
            a = q.analyse();
            ms.push(m);
        }
        if ms.is_empty() {
            return false;
        }
        self.go(Op::Line { o, ms })
    }
    /// up to k take-backs, no question asked in between
    fn back(&mut self, o: usize, k: usize) -> bool {
        let k = k.min(self.depth(o));
        k == 0 || self.go(Op::Back { o, k })
    }
    /// every legal move, played and taken back
    fn tree(&mut self, o: usize, limit: usize) -> bool {
        let mut l = self.an(o).legal;
        if self.pos(o).ply >= LAST_PLY {
            return true;
        }
        while l.len() > limit {
            let i = self.rng.below(l.len());
            l.swap_remove(i);
        }
        for m in l {
            if !self.go(Op::Do { o, m }) || !self.go(Op::Undo { o }) {
                return false;
            }
        }
        true
    }
    fn new_obj(&mut self, o: usize) -> bool {
        let p = self.source();
        let dflt = p == Pos::start() && self.rng.chance(50);
        if !dflt && p.ply < LAST_PLY && self.rng.chance(15) {
            let a = p.analyse();
            if !a.legal.is_empty() {
                let style = self.rng.below(8);
                let m = gen::random_move(&mut self.rng, &p, &a, style);
                let q = p.apply(m);
                return self.go(Op::New { o, src: Box::new(q), dflt, via: Some(Box::new((p, m))) });
            }
        }
        self.go(Op::New { o, src: Box::new(p), dflt, via: None })
    }

    fn walk(&mut self, len: usize) {
        if !self.new_obj(0) {
            return;
        }
        let style = self.rng.below(8);
        let mut n = 0;
        while n < len {
            n += 1;
            let x = self.rng.below(100);
            let st = if self.rng.chance(70) { style } else { self.rng.below(8) };
            if x < 6 {
                let k = self.rng.range(2, 6);
                if !self.line(0, k, st) && (self.over() || !self.some_undos(0, 2)) {
                    return;
                }
            } else if x < 74 {
                if !self.rand_do(0, st) {
                    if self.over() || self.depth(0) == 0 {
                        return;
                    }
                    let k = self.rng.range(1, self.depth(0));
                    for _ in 0..k {
                        if !self.go(Op::Undo { o: 0 }) {
                            return;
                        }
                    }
                }
            } else if x < 90 {
                if self.depth(0) > 0 {
                    let d = self.depth(0);
                    let k = if self.rng.chance(60) { 1 } else { self.rng.range(1, d) };
                    if k > 1 && self.rng.chance(30) {
                        if !self.back(0, k) {
                            return;
                        }
                        continue;
                    }
                    for _ in 0..k {
                        if !self.go(Op::Undo { o: 0 }) {
                            return;
                        }
                    }
                }
            } else if x < 91 {
                let n = self.rng.range(1, 20) as u32;
                if !self.churn(0, n) {
                    return;
                }
            } else if x < 95 {
                if !self.go(Op::Query { o: 0 }) {
                    return;
                }
            } else {
                let lim = self.rng.range(4, 40);
                if !self.tree(0, lim) {
                    return;
                }
                n += 6;
            }
        }
        if self.rng.chance(50) {
            while self.depth(0) > 0 {
                if !self.go(Op::Undo { o: 0 }) {
                    return;
                }
            }
        }
    }
    /// the same questions again and again, in any order
    fn asking(&mut self, len: usize) {
        if !self.new_obj(0) {
            return;
        }
        let style = self.rng.below(8);
        for _ in 0..len {
            for _ in 0..self.rng.below(5) {
                if !self.go(Op::Query { o: 0 }) {
                    return;
                }
            }
            if self.depth(0) > 0 && self.rng.chance(35) {
                if !self.go(Op::Undo { o: 0 }) {
                    return;
                }
            } else if !self.rand_do(0, style) && (self.over() || self.depth(0) == 0) {
                return;
            }
        }
    }
    /// to the end of a game and all the way back
    fn game(&mut self, len: usize) {
        if !self.new_obj(0) {
            return;
        }
        let style = self.rng.below(8);
        for _ in 0..len {
            let st = if self.rng.chance(50) { style } else { self.rng.below(8) };
            if !self.rand_do(0, st) {
                break;
            }
        }
        while !self.over() && self.depth(0) > 0 {
            if !self.go(Op::Undo { o: 0 }) {
                return;
            }
        }
    }
    /// depth-first walk of a small tree through one object
    fn dfs(&mut self, o: usize, depth: usize, width: usize) -> bool {
        let mut l = self.an(o).legal;
        if self.pos(o).ply >= LAST_PLY {
            return true;
        }
        while l.len() > width {
            let i = self.rng.below(l.len());
            l.swap_remove(i);
        }
        for m in l {
            if !self.go(Op::Do { o, m }) {
                return false;
            }
            if depth > 1 && !self.dfs(o, depth - 1, width) {
                return false;
            }
            if !self.go(Op::Undo { o }) {
                return false;
            }
        }
        true
    }
    /// a tree in which the replies to one move are tried first against its siblings, as searches do
    fn replies(&mut self, o: usize, depth: usize, width: usize, known: &mut Vec<Vec<u32>>) -> bool {
        let a = self.an(o);
        let p = self.pos(o);
        if p.ply >= LAST_PLY {
            return true;
        }
        let mut l: Vec<u32> = known[depth].iter().copied().filter(|m| a.legal.contains(m)).take(width).collect();
        for _ in 0..width {
            if l.len() >= width || a.legal.len() <= l.len() {
                break;
            }
            let style = self.rng.below(8);
            let m = gen::random_move(&mut self.rng, &p, &a, style);
            if !l.contains(&m) {
                l.push(m);
            }
        }
        if self.rng.chance(50) {
            l.reverse();
        }
        for m in l {
            if !self.go(Op::Do { o, m }) {
                return false;
            }
            if depth > 0 && !self.replies(o, depth - 1, width, known) {
                return false;
            }
            if !self.go(Op::Undo { o }) {
                return false;
            }
            if !known[depth].contains(&m) {
                known[depth].insert(0, m);
            }
        }
        true
    }
    /// clones taken at any time, used in any order
    fn clones(&mut self, len: usize) {
        if !self.new_obj(0) {
            return;
        }
        let mut live = vec![0usize];
        for _ in 0..len {
            let o = *self.rng.pick(&live);
            let x = self.rng.below(100);
            let st = self.rng.below(8);
            if x < 18 {
                let n = if live.len() < 4 {
                    live.push(live.len());
                    live.len() - 1
                } else {
                    // a clone may replace an older object
                    let n = self.rng.below(4);
                    if n == o {
                        continue;
                    }
                    n
                };
                if !self.go(Op::Clone { o, n }) {
                    return;
                }
            } else if x < 66 {
                if !self.rand_do(o, st) && self.over() {
                    return;
                }
                if live.len() > 1 && self.rng.chance(60) {
                    let q = *self.rng.pick(&live);
                    if q != o && !self.go(Op::Query { o: q }) {
                        return;
                    }
                }
            } else if x < 88 {
                let k = self.rng.range(1, 4).min(self.depth(o));
                for _ in 0..k {
                    if !self.go(Op::Undo { o }) {
                        return;
                    }
                }
                if live.len() > 1 && self.rng.chance(50) {
                    let q = *self.rng.pick(&live);
                    if q != o && !self.go(Op::Query { o: q }) {
                        return;
                    }
                }
            } else if x < 94 {
                let k = self.rng.range(2, 6);
                let ok = if self.rng.chance(50) { self.line(o, k, st) } else { self.back(o, k) };
                if !ok && self.over() {
                    return;
                }
            } else if !self.go(Op::Query { o }) {
                return;
            }
        }
        // unwind all of them
        for o in live {
            while self.depth(o) > 0 {
                if !self.go(Op::Undo { o }) {
                    return;
                }
            }
        }
    }
    /// the same game, turned by 180 degrees and mirrored
    fn symmetric(&mut self, len: usize) {
        let p = self.source();
        let (pt, pm) = (p.turned(), p.mirrored());
        if !self.go(Op::New { o: 0, src: Box::new(p), dflt: false, via: None })
            || !self.go_sym(Op::New { o: 1, src: Box::new(pt), dflt: false, via: None }, Sym::Turn(0))
            || !self.go_sym(Op::New { o: 2, src: Box::new(pm), dflt: false, via: None }, Sym::Mirror(0))
        {
            return;
        }
        let style = self.rng.below(8);
        for _ in 0..len {
            let ok = if self.depth(0) > 0 && self.rng.chance(18) {
                self.go(Op::Undo { o: 0 })
                    && self.go_sym(Op::Undo { o: 1 }, Sym::Turn(0))
                    && self.go_sym(Op::Undo { o: 2 }, Sym::Mirror(0))
            } else {
                self.rand_do(0, style) && {
                    let m = *self.ex.obj(0).mv.last().unwrap();
                    self.go_sym(Op::Do { o: 1, m: turn_move(m) }, Sym::Turn(0))
                        && self.go_sym(Op::Do { o: 2, m: mirror_move(m) }, Sym::Mirror(0))
                }
            };
            if !ok {
                return;
            }
        }
    }
    /// different orders of the same moves, and moves back and forth
    fn transpose(&mut self) {
        let p = self.source();
        if !self.go(Op::New { o: 0, src: Box::new(p.clone()), dflt: false, via: None }) {
            return;
        }
        for _ in 0..self.rng.below(6) {
            if !self.rand_do(0, 0) {
                return;
            }
        }
        if !self.go(Op::Clone { o: 0, n: 1 }) {
            return;
        }
        let p0 = self.pos(0);
        // a1 b1 a2 b2 against a2 b1 a1 b2 and a1 b2 a2 b1 ...
        for _ in 0..4 {
            let mut line = vec![];
            let mut q = p0.clone();
            for _ in 0..4 {
                let a = q.analyse();
                if a.legal.is_empty() || q.ply > 60000 {
                    return;
                }
                let m = gen::random_move(&mut self.rng, &q, &a, 6);
                q = q.apply(m);
                line.push(m);
            }
            for order in [[0, 1, 2, 3], [2, 1, 0, 3], [0, 3, 2, 1], [2, 3, 0, 1]] {
                let mut q2 = p0.clone();
                let mut ok = true;
                for i in order {
                    if !q2.legal().contains(&line[i]) {
                        ok = false;
                        break;
                    }
                    q2 = q2.apply(line[i]);
                }
                if !ok {
                    continue;
                }
                let o = self.rng.below(2);
                for i in order {
                    if !self.go(Op::Do { o, m: line[i] }) {
                        return;
                    }
                }
                if self.rng.chance(70) {
                    for _ in 0..4 {
                        if !self.go(Op::Undo { o }) {
                            return;
                        }
                    }
                } else {
                    break;
                }
            }
            if self.depth(0) != self.depth(1) || self.pos(0) != p0 || self.pos(1) != p0 {
                break;
            }
        }
        // back and forth
        for _ in 0..6 {
            let a = self.an(0);
            let p = self.pos(0);
            let quiet: Vec<u32> = a
                .legal
                .iter()
                .copied()
                .filter(|&m| !is_drop(m) && !is_promo(m) && p.b[m_to(m) as usize] == 0)
                .collect();
            if quiet.is_empty() || p.ply > 60000 {
                return;
            }
            let m1 = *self.rng.pick(&quiet);
            let q = p.apply(m1);
            let quiet2: Vec<u32> = q
                .legal()
                .into_iter()
                .filter(|&m| !is_drop(m) && !is_promo(m) && q.b[m_to(m) as usize] == 0)
                .collect();
            if quiet2.is_empty() {
                return;
            }
            let m2 = *self.rng.pick(&quiet2);
            if !self.go(Op::Do { o: 0, m: m1 }) || !self.go(Op::Do { o: 0, m: m2 }) {
                return;
            }
            for m in [m1, m2] {
                let back = board_move(m_to(m), m_from(m), false);
                if self.an(0).legal.contains(&back) {
                    if !self.go(Op::Do { o: 0, m: back }) {
                        return;
                    }
                } else {
                    break;
                }
            }
        }
    }
    /// positions that differ from one another in one respect
    fn neighbours(&mut self) {
        let p = self.source();
        if !self.go(Op::New { o: 0, src: Box::new(p.clone()), dflt: false, via: None }) {
            return;
        }
        let mut n = 0;
        while n < 30 {
            n += 1;
            let mut q = p.clone();
            match self.rng.below(8) {
                0 => q.c = 1 - q.c,
                1 | 2 => {
                    // one piece more or less
                    let s = self.rng.range(1, 81);
                    let x = q.b[s];
                    q.b[s] = if x != 0 { 0 } else { piece(self.rng.range(1, 14) as u8, self.rng.below(2)) };
                }
                3 => {
                    let s = self.rng.range(1, 81);
                    if q.b[s] != 0 {
                        q.b[s] = piece(self.rng.range(1, 14) as u8, self.rng.below(2));
                    }
                }
                4 => {
                    // a piece elsewhere, or two exchanged
                    let (s, t) = (self.rng.range(1, 81), self.rng.range(1, 81));
                    q.b.swap(s, t);
                }
                5 => {
                    let (c, k) = (self.rng.below(2), self.rng.range(1, 7));
                    if q.material(k as u8) < [0, 18, 4, 4, 4, 4, 2, 2][k] {
                        q.h[c][k] += 1;
                    }
                }
                6 => {
                    let (c, k) = (self.rng.below(2), self.rng.range(1, 7));
                    if q.h[c][k] > 0 {
                        q.h[c][k] -= 1;
                        if self.rng.chance(50) {
                            q.h[1 - c][k] += 1;
                        }
                    }
                }
                _ => q.h.swap(0, 1),
            }
            if !q.valid() || (1..=7).any(|k| q.material(k) > [0, 18, 4, 4, 4, 4, 2, 2][k as usize]) {
                continue;
            }
            if !self.go(Op::New { o: 0, src: Box::new(q), dflt: false, via: None }) {
                return;
            }
            if self.rng.chance(40) {
                for _ in 0..self.rng.range(1, 4) {
                    if !self.rand_do(0, 7) {
                        break;
                    }
                }
            }
        }
    }
    /// several positions that differ in one respect (only the hands, only the side, a piece),
    /// used by turns: an answer must not come from one of the others
    fn mixed(&mut self, len: usize) {
        let p = self.source();
        if !self.go(Op::New { o: 0, src: Box::new(p.clone()), dflt: false, via: None }) {
            return;
        }
        let style = self.rng.below(8);
        if self.rng.chance(40) {
            for _ in 0..self.rng.range(1, 4) {
                if !self.rand_do(0, style) {
                    break;
                }
            }
        }
        if self.over() {
            return;
        }
        let mut ps = vec![self.pos(0)];
        for _ in 0..self.rng.range(1, 3) {
            let b = self.rng.pick(&ps).clone();
            let w = self.rng.weighted(&[60, 10, 20, 10]);
            if let Some(q) = gen::variant(&mut self.rng, &b, w) {
                let o = ps.len();
                if !self.go(Op::New { o, src: Box::new(q.clone()), dflt: false, via: None }) {
                    return;
                }
                ps.push(q);
            }
        }
        self.full = true;
        for _ in 0..len {
            let o = self.rng.below(ps.len());
            let x = self.rng.below(100);
            let ok = if x < 50 {
                self.go(Op::Query { o })
            } else if x < 80 {
                // the same move in two of them, where both allow it
                let a = self.an(o);
                if a.legal.is_empty() || self.pos(o).ply >= LAST_PLY {
                    continue;
                }
                let p = self.pos(o);
                let m = gen::random_move(&mut self.rng, &p, &a, style);
                let o2 = self.rng.below(ps.len());
                let both = o2 != o && self.an(o2).legal.binary_search(&m).is_ok() && self.pos(o2).ply < LAST_PLY;
                self.go(Op::Do { o, m }) && (!both || self.go(Op::Do { o: o2, m }))
            } else if self.depth(o) > 0 {
                self.go(Op::Undo { o })
            } else {
                true
            };
            if !ok {
                return;
            }
        }
    }
    fn construct(&mut self) {
        for _ in 0..12 {
            let st = self.rng.below(8);
            if !self.new_obj(0) {
                return;
            }
            for _ in 0..self.rng.below(4) {
                if !self.rand_do(0, st) {
                    break;
                }
            }
            if self.over() {
                return;
            }
            let p = self.pos(0);
            if !self.go(Op::New { o: 1, src: Box::new(p), dflt: false, via: None }) {
                return;
            }
        }
    }
    fn perft(&mut self) {
        // where little can move walks may be long
        let deep = self.rng.chance(40);
        if deep {
            let kl = *self.rng.pick(&[0, 1, 2, 3, 3, 3, 3]);
            let src = Box::new(gen::position(&mut self.rng, Src::Few, kl));
            if !self.go(Op::New { o: 0, src, dflt: false, via: None }) {
                return;
            }
        } else if !self.new_obj(0) {
            return;
        }
        let most = if deep { 14 } else { 4 };
        let style = self.rng.below(8);
        for _ in 0..self.rng.range(1, 4) {
            if !self.go(Op::Query { o: 0 }) {
                return;
            }
            if self.rng.chance(25) {
                let k = self.rng.range(1, 5);
                self.line(0, k, style);
                if self.over() {
                    return;
                }
            }
            let p = self.pos(0);
            if p.ply + most > LAST_PLY {
                return;
            }
            // as deep as the number of lines allows (recorded walks are recounted by TLC)
            let budget = if self.rec { 300 } else { 20000 };
            let mut d = 1;
            let mut prev = self.an(0).legal.len() as u64;
            let mut widest = prev.max(1);
            while d < most && prev > 0 && prev * widest < budget {
                let n = p.perft(d as usize + 1);
                if n > 2 * budget {
                    break;
                }
                d += 1;
                widest = widest.max(n / prev);
                prev = n;
            }
            if !self.go(Op::Perft { o: 0, d }) || !self.go(Op::Query { o: 0 }) {
                return;
            }
            if !self.rand_do(0, style) {
                return;
            }
        }
    }
    /// plays what the library lists, wrong moves first
    fn adopt(&mut self, len: usize) {
        if !self.new_obj(0) {
            return;
        }
        let style = self.rng.below(8);
        for _ in 0..len {
            if self.over() {
                return;
            }
            let p = self.pos(0);
            if p.ply >= LAST_PLY {
                return;
            }
            let listed = {
                let ob = self.ex.obj(0);
                observe(&ob.x, LEG, &[], p.c)
            };
            let listed = match listed {
                Ok(o) => o.leg.unwrap(),
                Err(e) => {
                    let ev = Event {
                        op: Op::Query { o: 0 },
                        sym: Sym::None,
                        pre: None,
                        ob: Obs::default(),
                        fr: None,
                        rp: None,
                        perft: None,
                        panic: Some(e.clone()),
                    };
                    self.evs.push(ev);
                    self.flagged = Some((self.prop, e));
                    return;
                }
            };
            if listed.is_empty() {
                if self.depth(0) == 0 || !self.go(Op::Undo { o: 0 }) {
                    return;
                }
                continue;
            }
            if self.depth(0) > 0 && self.rng.chance(18) {
                let k = self.rng.range(1, self.depth(0).min(6));
                for _ in 0..k {
                    if !self.go(Op::Undo { o: 0 }) {
                        return;
                    }
                }
                continue;
            }
            let mut a = self.an(0);
            let ok = |m: &u32| *m < 30000 && m_to(*m) >= 1 && m_to(*m) <= 81 && m_from(*m) >= 1 && m_from(*m) <= 81;
            let wrong: Vec<u32> =
                listed.iter().copied().filter(|m| ok(m) && a.legal.binary_search(m).is_err()).collect();
            let m = if !wrong.is_empty() && self.rng.chance(80) {
                *self.rng.pick(&wrong)
            } else {
                a.legal = listed.into_iter().filter(|m| ok(m) && (is_drop(*m) || p.b[m_from(*m) as usize] != 0)).collect();
                if a.legal.is_empty() {
                    return;
                }
                gen::random_move(&mut self.rng, &p, &a, style)
            };
            if !self.go(Op::Adopt { o: 0, m }) {
                return;
            }
        }
    }

    /// One block of a family: each of its positions, and perhaps every move from it.
    fn family(&mut self, code: u64) {
        let fam = &crate::families::all()[(code >> 32 & 0xff) as usize];
        let tree = crate::families::of(self.prop).iter().find(|f| f.0 == fam.name).is_some_and(|f| f.1);
        self.full = true;
        for p in fam.block(code & 0xffff_ffff) {
            if !self.rec {
                self.evs.clear();
            }
            if self.prop == 17 {
                let (pt, pm) = (p.turned(), p.mirrored());
                if !self.go(Op::New { o: 0, src: Box::new(p), dflt: false, via: None })
                    || !self.go_sym(Op::New { o: 1, src: Box::new(pt), dflt: false, via: None }, Sym::Turn(0))
                    || !self.go_sym(Op::New { o: 2, src: Box::new(pm), dflt: false, via: None }, Sym::Mirror(0))
                {
                    return;
                }
                continue;
            }
            if !self.go(Op::New { o: 0, src: Box::new(p), dflt: false, via: None }) {
                return;
            }
            if tree && !self.tree(0, 600) {
                return;
            }
        }
    }

    fn churn(&mut self, o: usize, n: u32) -> bool {
        let mut q = self.pos(o);
        let mut ms = vec![];
        let style = self.rng.below(8);
        for _ in 0..self.rng.range(1, 6) {
            let a = q.analyse();
            if a.legal.is_empty() || q.ply >= LAST_PLY {
                break;
            }
            let m = gen::random_move(&mut self.rng, &q, &a, style);
            q = q.apply(m);
            ms.push(m);
        }
        ms.is_empty() || self.go(Op::Churn { o, n, ms })
    }
    fn some_undos(&mut self, o: usize, k: usize) -> bool {
        for _ in 0..k.min(self.depth(o)) {
            if !self.go(Op::Undo { o }) {
                return false;
            }
        }
        true
    }
    /// Long games, deep take-backs, the same moves very many times.
    fn long(&mut self) {
        match self.prop {
            17 => return self.symmetric(500),
            20 => return self.asking(800),
            22 if self.rng.chance(70) => return self.adopt(1500),
            13 => return self.game_far(1500),
            _ => {}
        }
        let style = self.rng.below(8);
        if self.prop == 15 && (self.chunk.1 - LONG) % 64 == 0 {
            // nearly as long as the move number allows
            let _ = self.go(Op::New { o: 0, src: Box::new(Pos::start()), dflt: true, via: None }) && {
                self.very_far(65_000);
                true
            };
            return;
        }
        match self.rng.below(6) {
            5 => {
                let n = *self.rng.pick(&[600, 1200, 2500, 5000, 9000, 20000]);
                if !self.new_obj(0) {
                    return;
                }
                self.very_far(n)
            }
            0 => {
                let n = *self.rng.pick(&[300, 700, 1500, 3000]);
                self.game_far(n)
            }
            1 => {
                // far into a game, then like any other
                if !self.new_obj(0) {
                    return;
                }
                for _ in 0..*self.rng.pick(&[130, 260, 520, 1100]) {
                    if !self.far_do(0, style) {
                        break;
                    }
                }
                if self.over() || !self.go(Op::Clone { o: 0, n: 1 }) {
                    return;
                }
                for _ in 0..60 {
                    let o = self.rng.below(2);
                    let k = self.rng.range(1, 4);
                    let ok = match self.rng.below(10) {
                        0..=4 => self.rand_do(o, style) || !self.over(),
                        5..=7 => self.some_undos(o, k),
                        8 => self.go(Op::Query { o }),
                        _ => self.churn(o, 300),
                    };
                    if !ok {
                        return;
                    }
                }
                if self.prop == 21 && self.pos(0).ply < 65000 && !self.go(Op::Perft { o: 0, d: 2 }) {
                    return;
                }
                for o in 0..2 {
                    let d = self.depth(o);
                    if !self.some_undos(o, d) {
                        return;
                    }
                }
            }
            2 => {
                // the same four positions over and over
                if !self.new_obj(0) {
                    return;
                }
                for _ in 0..20 {
                    let p = self.pos(0);
                    let a = self.an(0);
                    if a.legal.is_empty() || p.ply > 60000 {
                        break;
                    }
                    let quiet = |p: &Pos, l: &[u32]| -> Vec<u32> {
                        l.iter().copied().filter(|&m| !is_drop(m) && !is_promo(m) && p.b[m_to(m) as usize] == 0).collect()
                    };
                    let back = |m: u32| board_move(m_to(m), m_from(m), false);
                    let (l, _) = (quiet(&p, &a.legal), ());
                    let mut cyc = None;
                    for _ in 0..20 {
                        if l.is_empty() {
                            break;
                        }
                        let m1 = *self.rng.pick(&l);
                        let q = p.apply(m1);
                        let l2 = quiet(&q, &q.legal());
                        if l2.is_empty() {
                            continue;
                        }
                        let m2 = *self.rng.pick(&l2);
                        let r = q.apply(m2);
                        if r.legal().contains(&back(m1)) && r.apply(back(m1)).legal().contains(&back(m2)) {
                            cyc = Some([m1, m2, back(m1), back(m2)]);
                            break;
                        }
                    }
                    if let Some(c) = cyc {
                        for _ in 0..*self.rng.pick(&[20, 70, 150, 300]) {
                            for m in c {
                                if self.pos(0).ply > 65000 {
                                    return;
                                }
                                if !self.go(Op::Do { o: 0, m }) {
                                    return;
                                }
                            }
                        }
                        break;
                    }
                    if !self.rand_do(0, style) {
                        return;
                    }
                }
                let d = self.depth(0);
                self.some_undos(0, d);
            }
            _ => {
                if !self.new_obj(0) {
                    return;
                }
                for _ in 0..self.rng.range(1, 4) {
                    let n = *self.rng.pick(&[100, 300, 5000, 66000]);
                    if !self.churn(0, n) || !self.go(Op::Query { o: 0 }) {
                        return;
                    }
                    if self.prop == 21 && self.pos(0).ply < 65000 && !self.go(Op::Perft { o: 0, d: 2 }) {
                        return;
                    }
                    for _ in 0..self.rng.below(4) {
                        if !self.rand_do(0, style) {
                            break;
                        }
                    }
                    if self.over() {
                        return;
                    }
                    let k = self.rng.below(3);
                    if !self.some_undos(0, k) {
                        return;
                    }
                }
            }
        }
    }
    /// a move that keeps the game going: at the end of one, go back a little
    fn far_do(&mut self, o: usize, style: usize) -> bool {
        for _ in 0..50 {
            if self.rand_do(o, style) {
                return true;
            }
            let d = self.depth(o);
            if self.over() || d == 0 || self.pos(o).ply >= LAST_PLY {
                return false;
            }
            let k = self.rng.range(1, 6);
            if !self.some_undos(o, k) {
                return false;
            }
        }
        false
    }
    /// very many moves with few questions asked, and all the way back likewise
    fn very_far(&mut self, len: usize) {
        let style = self.rng.below(8);
        let mut stuck = 0;
        while self.depth(0) < len && self.pos(0).ply < LAST_PLY {
            let n = self.rng.range(20, 250);
            if !self.line(0, n, style) {
                // play may have come to an end that cannot be avoided
                stuck += 1;
                if stuck > 40 {
                    break;
                }
                let k = self.rng.range(1, 30);
                if self.over() || self.depth(0) == 0 || !self.back(0, k) {
                    return;
                }
            }
            if self.rng.chance(10) {
                // and as usual for a little
                for _ in 0..self.rng.below(6) {
                    if !self.rand_do(0, style) {
                        break;
                    }
                }
                let k = self.rng.below(12);
                if self.over() || !self.some_undos(0, k) {
                    return;
                }
            }
        }
        // a copy, and sometimes the end, with all of the history
        if (self.prop == 15 || self.rng.chance(20)) && !self.go(Op::Clone { o: 0, n: 1 }) {
            return;
        }
        if self.rng.chance(20) {
            return;
        }
        while self.depth(0) > 0 {
            let k = if self.rng.chance(30) { 1 } else { self.rng.range(1, 2 + len / 4) };
            if !self.back(0, k) {
                return;
            }
            if self.rng.chance(20) && !self.rand_do(0, style) && self.over() {
                return;
            }
        }
    }
    fn game_far(&mut self, len: usize) {
        if !self.new_obj(0) {
            return;
        }
        let style = self.rng.below(8);
        for _ in 0..len {
            let st = if self.rng.chance(50) { style } else { self.rng.below(8) };
            if !self.far_do(0, st) {
                break;
            }
        }
        let d = self.depth(0);
        self.some_undos(0, d);
    }

    /// One chunk of generated use.
    pub fn chunk(&mut self) {
        if self.chunk.1 >= LONG {
            return self.long();
        }
        if self.chunk.1 >= FAMILY {
            return self.family(self.chunk.1 - FAMILY);
        }
        if self.rng.chance(if self.prop == 20 { 40 } else { 10 }) && !matches!(self.prop, 13 | 16 | 17 | 21 | 22) {
            let n = if self.rec { self.rng.range(4, 10) } else { self.rng.range(4, 24) };
            return self.mixed(n);
        }
        match self.prop {
            16 => {
                let n = self.rng.range(10, 50);
                self.clones(n)
            }
            17 => {
                let n = self.rng.range(1, 16);
                self.symmetric(n)
            }
            12 => match self.rng.below(10) {
                0..=4 => self.transpose(),
                5..=8 => {
                    let n = self.rng.range(5, 40);
                    self.walk(n)
                }
                _ => self.game(80),
            },
            13 => self.neighbours(),
            18 => self.construct(),
            20 => {
                let n = self.rng.range(4, 30);
                self.asking(n)
            }
            21 => self.perft(),
            22 => {
                let n = self.rng.range(10, 80);
                self.adopt(n)
            }
            1..=6 | 8 => match self.rng.below(10) {
                0..=4 => {
                    // many positions
                    for _ in 0..6 {
                        if !self.new_obj(0) {
                            return;
                        }
                        let st = self.rng.below(8);
                        if self.rng.chance(20) {
                            let k = self.rng.range(1, 7);
                            self.line(0, k, st);
                            if self.over() {
                                return;
                            }
                        }
                        for _ in 0..self.rng.below(5) {
                            if !self.rand_do(0, st) {
                                break;
                            }
                        }
                        if self.over() {
                            return;
                        }
                    }
                }
                5 => {
                    if self.new_obj(0) {
                        if self.rng.chance(50) {
                            self.tree(0, 60);
                        } else {
                            self.replies(0, 2, if self.rec { 2 } else { 4 }, &mut vec![vec![]; 3]);
                        }
                    }
                }
                _ => {
                    let n = self.rng.range(4, 40);
                    self.walk(n)
                }
            },
            _ => {
                match self.rng.below(10) {
                    0..=5 => {
                        let n = self.rng.range(4, 40);
                        self.walk(n)
                    }
                    6 => {
                        let n = if self.rec { 60 } else { 150 };
                        self.game(n)
                    }
                    7 => {
                        if self.new_obj(0) {
                            self.tree(0, 80);
                        }
                    }
                    8 => {
                        if self.new_obj(0) {
                            if self.rng.chance(30) {
                                self.dfs(0, 3, 4);
                            } else {
                                self.replies(0, 2, if self.rec { 3 } else { 5 }, &mut vec![vec![]; 3]);
                            }
                        }
                    }
                    _ => {
                        let n = self.rng.range(6, 24);
                        if self.prop == ANY || self.prop == 14 {
                            self.clones(n)
                        } else {
                            self.walk(n)
                        }
                    }
                }
            }
        }
    }
}
