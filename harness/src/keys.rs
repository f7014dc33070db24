//! Keys of many positions: systematic families, and a table of keys met while searching.
use crate::code;
use crate::exec::*;
use crate::model::*;
use crate::script::Run;
use std::collections::HashMap;

pub struct Sys {
    list: Vec<Vec<Pos>>,
    prop: u8,
}
impl Sys {
    pub fn drain(&mut self, mut f: impl FnMut(&[Event])) {
        for l in std::mem::take(&mut self.list) {
            let mut r = Run::new(self.prop, 0, 0, true);
            for p in l {
                if !r.go(Op::New { o: 0, src: Box::new(p), dflt: false, via: None }) {
                    break;
                }
            }
            f(&r.evs);
        }
    }
}

fn singles() -> Vec<Pos> {
    let mut v = vec![];
    for c in 0..2 {
        let mut e = Pos::empty();
        e.c = c;
        v.push(e.clone());
        for x in 1..=28u8 {
            for s in 1..=81u8 {
                let mut p = e.clone();
                p.b[s as usize] = x;
                if p.valid() {
                    v.push(p);
                }
            }
        }
    }
    v
}
fn hands() -> Vec<Pos> {
    let max = [0u8, 18, 4, 4, 4, 4, 2, 2];
    let mut v = vec![Pos::empty()];
    let one: Vec<(usize, usize, u8)> =
        (0..2).flat_map(|c| (1..=7).flat_map(move |k| (1..=max[k]).map(move |n| (c, k, n)))).collect();
    for &(c, k, n) in &one {
        let mut p = Pos::empty();
        p.h[c][k] = n;
        v.push(p);
    }
    for (i, &(c, k, n)) in one.iter().enumerate() {
        for &(c2, k2, n2) in &one[i + 1..] {
            if (c2, k2) == (c, k) || k2 == k && n + n2 > max[k] {
                continue;
            }
            let mut p = Pos::empty();
            p.h[c][k] = n;
            p.h[c2][k2] = n2;
            v.push(p);
        }
    }
    v
}
/// the standard position with one square changed
fn replaced() -> Vec<Pos> {
    let mut v = vec![];
    for c in 0..2 {
        let mut e = Pos::start();
        e.c = c;
        for s in 1..=81usize {
            if matches!(e.b[s], 8 | 22) {
                continue;
            }
            for x in 0..=28u8 {
                if x == 8 || x == 22 {
                    continue;
                }
                let mut p = e.clone();
                p.b[s] = x;
                if p.valid() {
                    v.push(p);
                }
            }
        }
    }
    v
}

pub fn systematic(which: &str, prop: u8) -> Vec<(String, Sys)> {
    let mut out = vec![];
    for w in which.split(',') {
        let l = match w {
            "singles" => singles(),
            "hands" => hands(),
            "replaced" => replaced(),
            _ => panic!("unknown family {w}"),
        };
        out.push((w.to_string(), Sys { list: vec![l], prop }));
    }
    out
}

/// Keys met so far in this thread, with the positions they belong to.
pub struct KeyDb {
    pos: Vec<Pos>,
    k0: HashMap<u64, u32>,
    k1: HashMap<u64, u32>,
    k: HashMap<u64, u32>,
    b: HashMap<u64, (u64, u32)>,
    h: HashMap<u64, (u64, u32)>,
}
impl KeyDb {
    pub fn new() -> KeyDb {
        KeyDb {
            pos: vec![],
            k0: HashMap::new(),
            k1: HashMap::new(),
            k: HashMap::new(),
            b: HashMap::new(),
            h: HashMap::new(),
        }
    }
    /// Add everything a chunk showed. For C13, two positions that share a key they should not share.
    pub fn add(&mut self, prop: u8, r: &Run) -> Option<(String, Vec<Event>)> {
        if self.pos.len() > 300_000 {
            return None;
        }
        let pair = |p: &Pos, q: &Pos| {
            let mut rr = Run::new(prop, 0, 0, true);
            rr.go(Op::New { o: 0, src: Box::new(p.clone()), dflt: false, via: None });
            rr.go(Op::New { o: 1, src: Box::new(q.clone()), dflt: false, via: None });
            rr.evs
        };
        for o in r.ex.objs.iter().flatten() {
            for n in &o.st {
                let Some((k, k0, k1)) = n.obs.key else { continue };
                let p = &n.pos;
                let i = self.pos.len() as u32;
                self.pos.push(p.clone());
                if prop == 13 {
                    let j = *self.k0.entry(k0).or_insert(i);
                    let q = &self.pos[j as usize];
                    if q.b != p.b || q.c != p.c {
                        return Some(("C13 first key shared".into(), pair(q, p)));
                    }
                    let j = *self.k1.entry(k1).or_insert(i);
                    let q = &self.pos[j as usize];
                    if q.h != p.h {
                        return Some(("C13 second key shared".into(), pair(q, p)));
                    }
                    let j = *self.k.entry(k).or_insert(i);
                    let q = &self.pos[j as usize];
                    if q.b != p.b || q.c != p.c || q.h != p.h {
                        return Some(("C13 combined key shared".into(), pair(q, p)));
                    }
                } else {
                    let hb = crate::hash_of(&(&p.b[..], p.c));
                    let e = *self.b.entry(hb).or_insert((k0, i));
                    if e.0 != k0 {
                        return Some(("C12 two first keys".into(), r.evs.clone()));
                    }
                    let hh = crate::hash_of(&p.h);
                    let e = *self.h.entry(hh).or_insert((k1, i));
                    if e.0 != k1 {
                        return Some(("C12 two second keys".into(), r.evs.clone()));
                    }
                }
            }
        }
        None
    }
}

pub fn key_of(p: &Pos) -> Option<(u64, u64, u64)> {
    code::make(p).ok().map(|x| {
        let k = x.keys();
        (x.key(), k.0, k.1)
    })
}
