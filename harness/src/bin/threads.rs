//! Positions used from several threads at once, from the very first use in the process on (C20).
//! With --single the same calls are made one after the other by one thread; TLC compares the two
//! recordings. Position must be Send and Sync for this program to compile.
#![allow(dead_code)]
#[path = "../code.rs"]
mod code;
#[path = "../exec.rs"]
mod exec;
#[path = "../gen.rs"]
mod gen;
#[path = "../model.rs"]
mod model;

use code::*;
use exec::*;
use gen::{Rng, ALL_SRC};
use model::*;
use std::io::Write;
use std::sync::{Arc, Barrier};

fn need_sync<T: Send + Sync>() {}

#[derive(Clone)]
struct Job {
    start: Pos,
    moves: Vec<u32>,
    /// observation masks, in order; the first decides which table is touched first
    masks: Vec<u8>,
    /// shared positions, in this thread's own order
    order: Vec<usize>,
}

fn event(op: Op, ob: Result<Obs, Panic>) -> Event {
    let (ob, panic) = match ob {
        Ok(o) => (o, None),
        Err(e) => (Obs::default(), Some(e)),
    };
    Event { op, sym: Sym::None, pre: None, ob, fr: None, rp: None, perft: None, panic }
}

/// Own position: construct, ask, play, ask, take back, ask.
fn own(j: &Job) -> Vec<Event> {
    let mut evs = vec![];
    let mut p = j.start.clone();
    let mut x = match make(&p) {
        Ok(x) => x,
        Err(e) => return vec![event(Op::New { o: 0, src: Box::new(p), dflt: false, via: None }, Err(e))],
    };
    let ask = |x: &yasai::Position, p: &Pos, m: u8| observe(x, m, &p.legal(), p.c);
    let ob = ask(&x, &p, j.masks[0]);
    let dead = ob.is_err();
    evs.push(event(Op::New { o: 0, src: Box::new(p.clone()), dflt: false, via: None }, ob));
    if dead {
        return evs;
    }
    let mut st = vec![];
    for (i, &m) in j.moves.iter().enumerate() {
        let mv = to_move(m, p.c);
        let r = guard("do_move", || x.do_move(mv));
        st.push((p.clone(), m));
        p = p.apply(m);
        let ob = r.and_then(|_| ask(&x, &p, j.masks[(i + 1) % j.masks.len()]));
        let dead = ob.is_err();
        evs.push(event(Op::Do { o: 0, m }, ob));
        if dead {
            return evs;
        }
    }
    while let Some((q, m)) = st.pop() {
        let mv = to_move(m, q.c);
        let r = guard("undo_move", || x.undo_move(mv));
        p = q;
        let ob = r.and_then(|_| ask(&x, &p, ALL));
        let dead = ob.is_err();
        evs.push(event(Op::Undo { o: 0 }, ob));
        if dead {
            return evs;
        }
    }
    evs
}

/// Shared positions, asked while other threads ask them too.
fn shared(j: &Job, xs: &[(Pos, yasai::Position)]) -> Vec<Event> {
    let mut evs = vec![];
    for &i in &j.order {
        let (p, x) = &xs[i];
        evs.push(event(Op::New { o: 0, src: Box::new(p.clone()), dflt: false, via: None }, Ok(Obs::default())));
        for r in 0..2 {
            let m = if r == 0 { j.masks[i % j.masks.len()] } else { ALL };
            evs.push(event(Op::Query { o: 0 }, observe(x, m, &p.legal(), p.c)));
        }
        // and a copy, made while others read
        match guard("clone", || x.clone()) {
            Ok(y) => evs.push(event(Op::Clone { o: 0, n: 1 }, observe(&y, ALL, &p.legal(), p.c))),
            Err(e) => evs.push(event(Op::Clone { o: 0, n: 1 }, Err(e))),
        }
        if evs.last().unwrap().panic.is_some() {
            break;
        }
    }
    evs
}

type Raw = (Vec<shogi_core::Move>, u64, bool, Vec<bool>);

/// Many times over, on positions that differ from one another in one respect: what one thread is
/// told must not come from another thread's position. Per position two answers are recorded: the
/// first, and the last that differed from it (or the first again).
fn hammer(set: &[(Pos, Option<u32>)], first: usize, millis: u64) -> Vec<Event> {
    struct Item {
        p: Pos,
        legal: Vec<u32>,
        x: yasai::Position,
        m: Option<u32>,
        after: Option<(Pos, Vec<u32>)>,
        raw: Raw,
        ob: Obs,
        other: Result<Obs, Panic>,
        ob2: Option<Obs>,
        other2: Option<Result<Obs, Panic>>,
    }
    let raw = |x: &yasai::Position, ms: &[shogi_core::Move]| -> Raw {
        (x.legal_moves().into_iter().collect::<Vec<_>>(), x.key(), x.in_check(), ms.iter().map(|&m| x.is_check_move(m)).collect::<Vec<_>>())
    };
    let mut evs = vec![];
    let mut items = vec![];
    for (p, m) in set {
        let legal = p.legal();
        let mut x = match make(p) {
            Ok(x) => x,
            Err(e) => return vec![event(Op::New { o: 0, src: Box::new(p.clone()), dflt: false, via: None }, Err(e))],
        };
        let asked: Vec<_> = legal.iter().map(|&m| to_move(m, p.c)).collect();
        let ob = match observe(&x, ALL, &legal, p.c) {
            Ok(o) => o,
            Err(e) => return vec![event(Op::New { o: 0, src: Box::new(p.clone()), dflt: false, via: None }, Err(e))],
        };
        let r = match guard("query", || raw(&x, &asked)) {
            Ok(r) => r,
            Err(e) => return vec![event(Op::New { o: 0, src: Box::new(p.clone()), dflt: false, via: None }, Err(e))],
        };
        let mut ob2 = None;
        let mut after = None;
        if let Some(m) = *m {
            let q = p.apply(m);
            let ql = q.legal();
            let mv = to_move(m, p.c);
            let o = guard("do_move", || x.do_move(mv))
                .and_then(|_| observe(&x, ALL, &ql, q.c))
                .and_then(|o| guard("undo_move", || x.undo_move(mv)).map(|_| o));
            match o {
                Ok(o) => ob2 = Some(o),
                Err(e) => return vec![event(Op::New { o: 0, src: Box::new(p.clone()), dflt: false, via: None }, Err(e))],
            }
            after = Some((q, ql));
        }
        items.push(Item { p: p.clone(), legal, x, m: *m, after, raw: r, ob: ob.clone(), other: Ok(ob), other2: ob2.clone().map(Ok), ob2 });
    }
    let t0 = std::time::Instant::now();
    let mut i = first;
    while millis > 0 && t0.elapsed().as_millis() < millis as u128 {
        for _ in 0..64 {
            i = (i * 5 + 3) % items.len().next_power_of_two();
            let n = items.len();
            let it = &mut items[i % n];
            let asked: Vec<_> = it.legal.iter().map(|&m| to_move(m, it.p.c)).collect();
            match guard("query", || raw(&it.x, &asked)) {
                Ok(r) if r == it.raw => {}
                Ok(r) => {
                    // the answers just given, in the form that is recorded
                    let mut o = it.ob.clone();
                    let mut l: Vec<u32> = r.0.iter().map(|&m| from_move(m, it.p.c)).collect();
                    l.sort_unstable();
                    o.leg = Some(l);
                    o.chk = Some(r.2);
                    if r.1 != it.raw.1 {
                        o.key = o.key.map(|k| (r.1, k.1, k.2));
                    }
                    o.gc = Some(it.legal.iter().zip(&r.3).filter(|x| *x.1).map(|x| *x.0).collect());
                    if o != it.ob {
                        it.other = Ok(o);
                    }
                }
                Err(e) => it.other = Err(e),
            }
        }
        for _ in 0..8 {
            i = (i * 5 + 3) % items.len().next_power_of_two();
            let n = items.len();
            let it = &mut items[i % n];
            let o = observe(&it.x, ALL, &it.legal, it.p.c);
            if o.as_ref().ok() != Some(&it.ob) {
                it.other = o;
            }
            if let (Some(m), Some((q, ql))) = (it.m, &it.after) {
                let mv = to_move(m, it.p.c);
                let x = &mut it.x;
                let o = guard("do_move", || x.do_move(mv))
                    .and_then(|_| observe(x, ALL, ql, q.c))
                    .and_then(|o| guard("undo_move", || x.undo_move(mv)).map(|_| o));
                if o.as_ref().ok() != it.ob2.as_ref() {
                    it.other2 = Some(o);
                }
            }
        }
    }
    for it in items {
        evs.push(event(Op::New { o: 0, src: Box::new(it.p), dflt: false, via: None }, Ok(it.ob)));
        evs.push(event(Op::Query { o: 0 }, it.other));
        if let (Some(m), Some(o)) = (it.m, it.other2) {
            evs.push(event(Op::Do { o: 0, m }, o));
        }
    }
    evs
}

/// Copies of one position, each played on by a thread of its own, over and over along the same paths.
fn kin(root: &Pos, mut x: yasai::Position, paths: &[Vec<u32>], first: usize, millis: u64) -> Vec<Event> {
    struct Path {
        /// (position, move) to play in order
        ms: Vec<(Pos, u32)>,
        end: Pos,
        legal: Vec<u32>,
        ob: Obs,
        other: Result<Obs, Panic>,
    }
    let walk = |x: &mut yasai::Position, ms: &[(Pos, u32)], end: &Pos, legal: &[u32]| -> Result<Obs, Panic> {
        for (p, m) in ms {
            let mv = to_move(*m, p.c);
            guard("do_move", || x.do_move(mv))?;
        }
        let o = observe(x, ALL, legal, end.c)?;
        for (p, m) in ms.iter().rev() {
            let mv = to_move(*m, p.c);
            guard("undo_move", || x.undo_move(mv))?;
        }
        Ok(o)
    };
    let new = || Op::New { o: 0, src: Box::new(root.clone()), dflt: false, via: None };
    let mut all = vec![];
    for path in paths {
        let mut p = root.clone();
        let mut ms = vec![];
        for &m in path {
            ms.push((p.clone(), m));
            p = p.apply(m);
        }
        let legal = p.legal();
        match walk(&mut x, &ms, &p, &legal) {
            Ok(ob) => all.push(Path { ms, end: p, legal, other: Ok(ob.clone()), ob }),
            Err(e) => return vec![event(new(), Err(e))],
        }
    }
    let t0 = std::time::Instant::now();
    let mut i = first;
    'time: while millis > 0 && t0.elapsed().as_millis() < millis as u128 {
        for _ in 0..16 {
            i += 1;
            let n = all.len();
            let it = &mut all[i % n];
            let o = walk(&mut x, &it.ms, &it.end, &it.legal);
            if o.as_ref().ok() != Some(&it.ob) {
                let dead = o.is_err();
                it.other = o;
                if dead {
                    break 'time;
                }
            }
        }
    }
    let mut evs = vec![];
    for it in all {
        evs.push(event(new(), Ok(Obs::default())));
        let n = it.ms.len();
        for (k, (_, m)) in it.ms.iter().enumerate() {
            let ob = if k + 1 == n { it.ob.clone() } else { Obs::default() };
            evs.push(event(Op::Do { o: 0, m: *m }, Ok(ob)));
        }
        evs.push(event(Op::Query { o: 0 }, it.other));
    }
    evs
}

/// What thread i works on: some use half of the positions.
fn part(i: usize, set: &[(Pos, Option<u32>)]) -> Vec<(Pos, Option<u32>)> {
    let h = set.len() / 2;
    match i % 3 {
        0 => set.to_vec(),
        1 => set[..h].to_vec(),
        _ => set[h..].to_vec(),
    }
}

fn main() {
    need_sync::<yasai::Position>();
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
    let n: usize = get("--threads").map_or(8, |s| s.parse().unwrap());
    let single = args.iter().any(|a| a == "--single");
    let out = get("--out").unwrap();
    // everything below here until the threads run uses the model only
    let mut r = Rng::new(seed ^ 0xc20);
    let nshared = 4;
    let pos = |r: &mut Rng| {
        let s = ALL_SRC[r.below(ALL_SRC.len())];
        gen::position(r, s, 0)
    };
    let sh: Vec<Pos> = (0..nshared).map(|_| pos(&mut r)).collect();
    let firsts = [LEG, GC, CHK, KEY, ST, ALL];
    let same = pos(&mut r);
    let jobs: Vec<Job> = (0..n)
        .map(|i| {
            let start = if i % 2 == 0 { same.clone() } else { pos(&mut r) };
            let mut moves = vec![];
            let mut p = start.clone();
            for _ in 0..r.range(1, 4) {
                let a = p.analyse();
                if a.legal.is_empty() || p.ply > 65000 {
                    break;
                }
                let m = gen::random_move(&mut r, &p, &a, i % 8);
                p = p.apply(m);
                moves.push(m);
            }
            let k = r.below(firsts.len());
            let masks = (0..firsts.len()).map(|j| firsts[(j + k) % firsts.len()]).collect();
            let mut order: Vec<usize> = (0..nshared).collect();
            for j in (1..nshared).rev() {
                let k = r.below(j + 1);
                order.swap(j, k);
            }
            Job { start, moves, masks, order }
        })
        .collect();
    // the positions of the long run: some of a kind, and each with variants
    let millis: u64 = get("--millis").map_or(0, |s| s.parse().unwrap());
    let mut set: Vec<(Pos, Option<u32>)> = vec![];
    let srcs = [gen::Src::PawnMate, gen::Src::PawnMate, gen::Src::Check, gen::Src::Hands, gen::Src::Lines, gen::Src::Mid, gen::Src::Cluster];
    let two = [srcs[r.below(srcs.len())], srcs[r.below(srcs.len())]];
    while millis > 0 && set.len() < 12 {
        let s = *r.pick(&two);
        let p = gen::position(&mut r, s, 0);
        let q = gen::variant(&mut r, &p, 3);
        for p in [Some(p), q].into_iter().flatten() {
            let a = p.analyse();
            let m = if a.legal.is_empty() || p.ply > 65000 { None } else { Some(gen::random_move(&mut r, &p, &a, 0)) };
            set.push((p, m));
        }
    }
    // half of the long runs: copies of one position
    let mut family: Option<(Pos, Vec<Vec<u32>>)> = None;
    if millis > 0 && seed / 2 % 2 == 0 {
        let root = pos(&mut r);
        let mut paths = vec![vec![]];
        for _ in 0..12 {
            let mut p = root.clone();
            let mut path = vec![];
            for _ in 0..r.range(1, 4) {
                let a = p.analyse();
                if a.legal.is_empty() || p.ply > 65000 {
                    break;
                }
                let m = gen::random_move(&mut r, &p, &a, 0);
                p = p.apply(m);
                path.push(m);
            }
            paths.push(path);
        }
        family = Some((root, paths));
    }
    let make_shared = || -> Vec<(Pos, yasai::Position)> {
        sh.iter().filter_map(|p| make(p).ok().map(|x| (p.clone(), x))).collect()
    };
    let mut res: Vec<(String, Vec<Event>)> = vec![];
    if let Some((root, paths)) = &family {
        match make(root) {
            Err(e) => {
                let op = Op::New { o: 0, src: Box::new(root.clone()), dflt: false, via: None };
                res.push((format!("s{seed}kin"), vec![event(op, Err(e))]));
            }
            Ok(x) if single => {
                for i in 0..n {
                    res.push((format!("s{seed}kin{i}"), kin(root, x.clone(), paths, i, 0)));
                }
            }
            Ok(x) => {
                let bar = Barrier::new(n);
                let bar = &bar;
                std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..n)
                        .map(|i| {
                            let y = x.clone();
                            sc.spawn(move || {
                                bar.wait();
                                kin(root, y, paths, i, millis)
                            })
                        })
                        .collect();
                    for (i, h) in hs.into_iter().enumerate() {
                        res.push((format!("s{seed}kin{i}"), h.join().unwrap()));
                    }
                });
            }
        }
    } else if single && millis > 0 {
        for i in 0..n {
            res.push((format!("s{seed}hammer{i}"), hammer(&part(i, &set), i, 0)));
        }
    } else if millis > 0 {
        let bar = Arc::new(Barrier::new(n));
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let (bar, set) = (bar.clone(), set.clone());
                std::thread::spawn(move || {
                    bar.wait();
                    hammer(&part(i, &set), i, millis)
                })
            })
            .collect();
        for (i, h) in hs.into_iter().enumerate() {
            res.push((format!("s{seed}hammer{i}"), h.join().unwrap()));
        }
    } else if single {
        for (i, j) in jobs.iter().enumerate() {
            res.push((format!("s{seed}own{i}"), own(j)));
        }
        let xs = make_shared();
        if xs.len() == nshared {
            for (i, j) in jobs.iter().enumerate() {
                res.push((format!("s{seed}shared{i}"), shared(j, &xs)));
            }
        }
    } else {
        let bar = Arc::new(Barrier::new(n));
        let hs: Vec<_> = jobs
            .iter()
            .cloned()
            .map(|j| {
                let bar = bar.clone();
                std::thread::spawn(move || {
                    bar.wait();
                    own(&j)
                })
            })
            .collect();
        for (i, h) in hs.into_iter().enumerate() {
            res.push((format!("s{seed}own{i}"), h.join().unwrap()));
        }
        let xs = Arc::new(make_shared());
        if xs.len() == nshared {
            let hs: Vec<_> = jobs
                .iter()
                .cloned()
                .map(|j| {
                    let (bar, xs) = (bar.clone(), xs.clone());
                    std::thread::spawn(move || {
                        bar.wait();
                        shared(&j, &xs)
                    })
                })
                .collect();
            for (i, h) in hs.into_iter().enumerate() {
                res.push((format!("s{seed}shared{i}"), h.join().unwrap()));
            }
        }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for (id, evs) in &res {
        writeln!(f, "{}", trace_json(id, evs)).unwrap();
    }
}
