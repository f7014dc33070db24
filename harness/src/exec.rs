//! Execution of operation scripts on the real code next to the scout model.
use crate::code::{self, *};
use crate::model::*;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// via: the description is made by playing a move on that of another position
    New { o: usize, src: Box<Pos>, dflt: bool, via: Option<Box<(Pos, u32)>> },
    Do { o: usize, m: u32 },
    Undo { o: usize },
    Clone { o: usize, n: usize },
    Query { o: usize },
    Perft { o: usize, d: u32 },
    /// play a move the library listed; the model takes over the state the library then shows
    Adopt { o: usize, m: u32 },
    /// play a line of moves and take it back, n times over
    Churn { o: usize, n: u32, ms: Vec<u32> },
    /// several moves with no question in between
    Line { o: usize, ms: Vec<u32> },
    /// several take-backs with no question in between
    Back { o: usize, k: usize },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sym {
    None,
    Turn(usize),
    Mirror(usize),
}

#[derive(Clone)]
pub struct Event {
    pub op: Op,
    pub sym: Sym,
    pub pre: Option<bool>,
    pub ob: Obs,
    pub fr: Option<Obs>,
    pub rp: Option<Obs>,
    pub perft: Option<(u64, Vec<(u32, u64)>)>,
    pub panic: Option<String>,
}

#[derive(Clone)]
pub struct Node {
    pub pos: Pos,
    pub an: Analysis,
    pub obs: Obs,
}
pub struct Obj {
    pub x: yasai::Position,
    pub st: Vec<Node>,
    pub mv: Vec<u32>,
    /// every move played since construction, 0 for a take-back
    pub hist: Vec<u32>,
    /// how it was described
    pub via: Option<Box<(Pos, u32)>>,
}
impl Obj {
    pub fn top(&self) -> &Node {
        self.st.last().unwrap()
    }
}
#[derive(Default)]
pub struct Exec {
    pub objs: Vec<Option<Obj>>,
    pub dead: bool,
    /// an object for comparison repeats the take-backs too, not only the moves that led here
    pub rp_all: bool,
    /// write every operation down before it is made (for calls that end the process)
    pub log: Option<std::fs::File>,
    /// odd while an operation is under way
    pub beat: Option<std::sync::Arc<std::sync::atomic::AtomicU64>>,
}

fn node(pos: Pos) -> Node {
    let an = pos.analyse();
    Node { pos, an, obs: Obs::default() }
}

pub fn perft_code(x: &mut yasai::Position, d: u32, c: usize) -> (u64, Vec<(u32, u64)>) {
    fn go(x: &mut yasai::Position, d: u32) -> u64 {
        if d == 0 {
            return 1;
        }
        let l = x.legal_moves();
        if d == 1 {
            return l.len() as u64;
        }
        let mut n = 0;
        for m in l {
            x.do_move(m);
            n += go(x, d - 1);
            x.undo_move(m);
        }
        n
    }
    let mut div = vec![];
    let mut tot = 0;
    for m in x.legal_moves() {
        x.do_move(m);
        let n = go(x, d - 1);
        x.undo_move(m);
        tot += n;
        div.push((from_move(m, c), n));
    }
    div.sort_unstable();
    (tot, div)
}

impl Exec {
    pub fn new() -> Exec {
        Exec::default()
    }
    pub fn obj(&self, o: usize) -> &Obj {
        self.objs[o].as_ref().unwrap()
    }
    fn set(&mut self, o: usize, x: Obj) {
        while self.objs.len() <= o {
            self.objs.push(None);
        }
        self.objs[o] = Some(x);
    }
    /// Run one operation; `maskf` says, from the model state reached, what to observe.
    pub fn step(&mut self, op: Op, sym: Sym, pre: bool, maskf: impl Fn(&Node, Option<&Node>) -> u8) -> Event {
        let mut ev =
            Event { op: op.clone(), sym, pre: None, ob: Obs::default(), fr: None, rp: None, perft: None, panic: None };
        if let Some(b) = &self.beat {
            b.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        if let Some(f) = &mut self.log {
            let mut t = String::new();
            event_json(&mut t, &ev);
            t.push('\n');
            let _ = std::io::Write::write_all(f, t.as_bytes());
        }
        if let Err(p) = self.step_inner(&op, pre, &maskf, &mut ev) {
            ev.panic = Some(p);
            self.dead = true;
        }
        if let Some(b) = &self.beat {
            b.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
        ev
    }
    fn step_inner(
        &mut self,
        op: &Op,
        pre: bool,
        maskf: &impl Fn(&Node, Option<&Node>) -> u8,
        ev: &mut Event,
    ) -> Result<(), Panic> {
        let o = match op {
            Op::New { o, src, dflt, via } => {
                let x = if *dflt {
                    guard("new", yasai::Position::default)?
                } else if let Some(v) = via {
                    code::make_via(&v.0, v.1, src)?
                } else {
                    code::make(src)?
                };
                self.set(*o, Obj { x, st: vec![node((**src).clone())], mv: vec![], hist: vec![], via: via.clone() });
                *o
            }
            Op::Do { o, m } => {
                let ob = self.objs[*o].as_mut().unwrap();
                let c = ob.top().pos.c;
                let mv = to_move(*m, c);
                if pre {
                    let x = &ob.x;
                    ev.pre = Some(guard("is_check_move", || x.is_check_move(mv))?);
                }
                let x = &mut ob.x;
                guard("do_move", || x.do_move(mv))?;
                let n = node(ob.top().pos.apply(*m));
                ob.st.push(n);
                ob.mv.push(*m);
                ob.hist.push(*m);
                *o
            }
            Op::Undo { o } => {
                let ob = self.objs[*o].as_mut().unwrap();
                let m = ob.mv.pop().unwrap();
                ob.st.pop();
                let c = ob.top().pos.c;
                let x = &mut ob.x;
                guard("undo_move", || x.undo_move(to_move(m, c)))?;
                ob.hist.push(0);
                *o
            }
            Op::Clone { o, n } => {
                // over an object that is there already: clone_from
                let old = if o != n && self.objs.len() > *n { self.objs[*n].take() } else { None };
                let ob = self.obj(*o);
                let y = if let Some(mut z) = old {
                    guard("clone", || z.x.clone_from(&ob.x))?;
                    z.x
                } else {
                    guard("clone", || ob.x.clone())?
                };
                let z = Obj { x: y, st: ob.st.clone(), mv: ob.mv.clone(), hist: ob.hist.clone(), via: ob.via.clone() };
                self.set(*n, z);
                *n
            }
            Op::Query { o } => *o,
            Op::Adopt { o, m } => {
                let ob = self.objs[*o].as_mut().unwrap();
                let mv = to_move(*m, ob.top().pos.c);
                let x = &mut ob.x;
                guard("do_move", || x.do_move(mv))?;
                let n = node(read_state(x)?);
                ob.st.push(n);
                ob.mv.push(*m);
                ob.hist.push(*m);
                *o
            }
            Op::Line { o, ms } => {
                let ob = self.objs[*o].as_mut().unwrap();
                let c = ob.top().pos.c;
                let x = &mut ob.x;
                guard("do_move", || ms.iter().enumerate().for_each(|(i, m)| x.do_move(to_move(*m, (c + i) % 2))))?;
                for &m in ms {
                    let n = node(ob.top().pos.apply(m));
                    ob.st.push(n);
                    ob.mv.push(m);
                    ob.hist.push(m);
                }
                *o
            }
            Op::Back { o, k } => {
                let ob = self.objs[*o].as_mut().unwrap();
                let mut back = vec![];
                for _ in 0..*k {
                    ob.st.pop();
                    back.push(to_move(ob.mv.pop().unwrap(), ob.top().pos.c));
                    ob.hist.push(0);
                }
                let x = &mut ob.x;
                guard("undo_move", || back.iter().for_each(|m| x.undo_move(*m)))?;
                *o
            }
            Op::Churn { o, n, ms } => {
                let ob = self.objs[*o].as_mut().unwrap();
                let c = ob.top().pos.c;
                let ms: Vec<_> = ms.iter().enumerate().map(|(i, m)| to_move(*m, (c + i) % 2)).collect();
                let x = &mut ob.x;
                for _ in 0..*n {
                    guard("do_move", || ms.iter().for_each(|m| x.do_move(*m)))?;
                    guard("undo_move", || ms.iter().rev().for_each(|m| x.undo_move(*m)))?;
                }
                *o
            }
            Op::Perft { o, d } => {
                let ob = self.objs[*o].as_mut().unwrap();
                let c = ob.top().pos.c;
                let x = &mut ob.x;
                ev.perft = Some(guard("perft", || perft_code(x, *d, c))?);
                *o
            }
        };
        let ob = self.objs[o].as_mut().unwrap();
        let prev = if ob.st.len() >= 2 { Some(&ob.st[ob.st.len() - 2]) } else { None };
        let nd = ob.top();
        let mask = maskf(nd, prev);
        ev.ob = observe(&ob.x, mask & ALL, &nd.an.legal, nd.pos.c)?;
        if mask & FRESH != 0 {
            // some of them from a description on which the last move was played
            let y = match (prev, ob.mv.last()) {
                (Some(q), Some(&m)) if (m + nd.pos.ply) % 2 == 1 => code::make_via(&q.pos, m, &nd.pos),
                _ => code::make(&nd.pos),
            }
            .map_err(|e| format!("fresh {e}"))?;
            ev.fr = Some(observe(&y, mask & ALL, &nd.an.legal, nd.pos.c).map_err(|e| format!("fresh {e}"))?);
        }
        if mask & RP != 0 {
            let ob = self.obj(o);
            let f = |e| format!("replayed {e}");
            let p0 = &ob.st[0].pos;
            let y = if let Some(v) = &ob.via { code::make_via(&v.0, v.1, p0) } else { code::make(p0) };
            let mut y = y.map_err(f)?;
            let mut c = ob.st[0].pos.c;
            let mut on: Vec<shogi_core::Move> = vec![];
            for &m in if self.rp_all { &ob.hist } else { &ob.mv } {
                if m != 0 {
                    let m = to_move(m, c);
                    guard("do_move", || y.do_move(m)).map_err(f)?;
                    on.push(m);
                } else {
                    let m = on.pop().unwrap();
                    guard("undo_move", || y.undo_move(m)).map_err(f)?;
                }
                c = 1 - c;
            }
            ev.rp = Some(observe(&y, mask & ALL, &ob.top().an.legal, ob.top().pos.c).map_err(f)?);
        }
        Ok(())
    }
    /// Remember the observation as what this object's current state looks like, unless one is there.
    pub fn remember(&mut self, ev: &Event) {
        let o = obj_of(&ev.op);
        if ev.panic.is_some() {
            return;
        }
        if let Some(ob) = self.objs[o].as_mut() {
            let n = ob.st.last_mut().unwrap();
            if matches!(ev.op, Op::New { .. } | Op::Do { .. } | Op::Line { .. } | Op::Adopt { .. }) {
                n.obs = ev.ob.clone();
            } else {
                if n.obs.st.is_none() {
                    n.obs.st = ev.ob.st.clone();
                }
                if n.obs.chk.is_none() {
                    n.obs.chk = ev.ob.chk;
                }
                if n.obs.key.is_none() {
                    n.obs.key = ev.ob.key;
                }
                if n.obs.leg.is_none() {
                    n.obs.leg = ev.ob.leg.clone();
                }
                if n.obs.gc.is_none() {
                    n.obs.gc = ev.ob.gc.clone();
                }
            }
        }
    }
}

pub fn obj_of(op: &Op) -> usize {
    match op {
        Op::New { o, .. } | Op::Do { o, .. } | Op::Undo { o } | Op::Query { o } | Op::Perft { o, .. } | Op::Adopt { o, .. } | Op::Churn { o, .. } => *o,
        Op::Line { o, .. } | Op::Back { o, .. } => *o,
        Op::Clone { n, .. } => *n,
    }
}

// ------------------------------------------------------------------ JSON

fn ints<T: std::fmt::Display>(s: &mut String, v: impl Iterator<Item = T>) {
    s.push('[');
    for (i, x) in v.enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{x}");
    }
    s.push(']');
}
pub fn pos_json(s: &mut String, p: &Pos) {
    s.push_str("{\"b\":");
    ints(s, p.b[1..].iter());
    s.push_str(",\"h\":[");
    ints(s, p.h[0][1..].iter());
    s.push(',');
    ints(s, p.h[1][1..].iter());
    let _ = write!(s, "],\"c\":{},\"ply\":{}}}", p.c + 1, p.ply);
}
fn obs_json(s: &mut String, o: &Obs) {
    s.push('{');
    let mut first = true;
    let mut sep = |s: &mut String| {
        if !first {
            s.push(',');
        }
        first = false;
    };
    if let Some(p) = &o.st {
        sep(s);
        s.push_str("\"st\":");
        pos_json(s, p);
    }
    if let Some(c) = o.chk {
        sep(s);
        let _ = write!(s, "\"chk\":{c}");
    }
    if let Some((k, k0, k1)) = o.key {
        sep(s);
        s.push_str("\"key\":[");
        for (i, x) in [k, k0, k1].iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            ints(s, [x >> 48, x >> 32 & 0xffff, x >> 16 & 0xffff, x & 0xffff].iter());
        }
        s.push(']');
    }
    if let Some(l) = &o.leg {
        sep(s);
        s.push_str("\"leg\":");
        ints(s, l.iter());
    }
    if let Some(l) = &o.gc {
        sep(s);
        s.push_str("\"gc\":");
        ints(s, l.iter());
    }
    s.push('}');
}
fn escape(t: &str) -> String {
    t.chars().map(|c| if c == '"' || c == '\\' || (c as u32) < 32 { ' ' } else { c }).collect()
}
pub fn event_json(s: &mut String, e: &Event) {
    match &e.op {
        Op::New { o, src, dflt, via } => {
            let _ = write!(s, "{{\"op\":\"new\",\"o\":{},\"dflt\":{dflt},\"src\":", o + 1);
            pos_json(s, src);
            if let Some(v) = via {
                let _ = write!(s, ",\"viam\":{},\"via\":", v.1);
                pos_json(s, &v.0);
            }
        }
        Op::Do { o, m } => {
            let _ = write!(s, "{{\"op\":\"do\",\"o\":{},\"m\":{m}", o + 1);
        }
        Op::Adopt { o, m } => {
            let _ = write!(s, "{{\"op\":\"adopt\",\"o\":{},\"m\":{m}", o + 1);
        }
        Op::Undo { o } => {
            let _ = write!(s, "{{\"op\":\"undo\",\"o\":{}", o + 1);
        }
        Op::Clone { o, n } => {
            let _ = write!(s, "{{\"op\":\"clone\",\"o\":{},\"of\":{}", n + 1, o + 1);
        }
        Op::Query { o } => {
            let _ = write!(s, "{{\"op\":\"query\",\"o\":{}", o + 1);
        }
        Op::Line { o, ms } => {
            let _ = write!(s, "{{\"op\":\"line\",\"o\":{},\"ms\":", o + 1);
            ints(s, ms.iter());
        }
        Op::Back { o, k } => {
            let _ = write!(s, "{{\"op\":\"back\",\"o\":{},\"k\":{k}", o + 1);
        }
        Op::Churn { o, n, ms } => {
            let _ = write!(s, "{{\"op\":\"churn\",\"o\":{},\"k\":{n},\"ms\":", o + 1);
            ints(s, ms.iter());
        }
        Op::Perft { o, d } => {
            let _ = write!(s, "{{\"op\":\"perft\",\"o\":{},\"d\":{d}", o + 1);
            if let Some((n, div)) = &e.perft {
                let _ = write!(s, ",\"n\":{n},\"div\":[");
                for (i, (m, k)) in div.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    let _ = write!(s, "[{m},{k}]");
                }
                s.push(']');
            }
        }
    }
    match e.sym {
        Sym::None => {}
        Sym::Turn(o) => {
            let _ = write!(s, ",\"sym\":\"turn\",\"symof\":{}", o + 1);
        }
        Sym::Mirror(o) => {
            let _ = write!(s, ",\"sym\":\"mirror\",\"symof\":{}", o + 1);
        }
    }
    if let Some(b) = e.pre {
        let _ = write!(s, ",\"pre\":{b}");
    }
    if let Some(p) = &e.panic {
        let at = if p.starts_with("fresh") { "fresh" } else if p.starts_with("replayed") { "replayed" } else { p.split(':').next().unwrap_or("") };
        let _ = write!(s, ",\"at\":\"{at}\",\"panic\":\"{}\"", escape(p));
    }
    s.push_str(",\"ob\":");
    obs_json(s, &e.ob);
    if let Some(f) = &e.fr {
        s.push_str(",\"fr\":");
        obs_json(s, f);
    }
    if let Some(f) = &e.rp {
        s.push_str(",\"rp\":");
        obs_json(s, f);
    }
    s.push('}');
}
pub fn trace_json(id: &str, evs: &[Event]) -> String {
    let mut s = String::with_capacity(evs.len() * 300);
    let _ = write!(s, "{{\"id\":\"{id}\",\"ev\":[");
    for (i, e) in evs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        event_json(&mut s, e);
    }
    s.push_str("]}");
    s
}

// ------------------------------------------------------------------ what looks wrong

fn diff(a: &[u32], b: &[u32]) -> Vec<u32> {
    a.iter().copied().filter(|x| b.binary_search(x).is_err()).collect()
}

pub fn obs_differ(a: &Obs, b: &Obs) -> Option<String> {
    macro_rules! f {
        ($f:ident) => {
            if let (Some(x), Some(y)) = (&a.$f, &b.$f) {
                if x != y {
                    return Some(format!("{}: {:?} vs {:?}", stringify!($f), x, y));
                }
            }
        };
    }
    f!(st);
    f!(chk);
    f!(key);
    f!(leg);
    f!(gc);
    None
}

fn panic_props(p: &str) -> Vec<u8> {
    let mut v = vec![15, 14];
    let q = p.strip_prefix("fresh ").unwrap_or(p);
    if p.starts_with("fresh") {
        v.push(11);
    }
    if p.starts_with("replayed") {
        v.extend([10, 16, 20]);
    }
    match q.split(':').next().unwrap_or("") {
        "new" => v.extend([18]),
        "do_move" => v.extend([9, 10]),
        "undo_move" => v.extend([10]),
        "legal_moves" => v.extend([1, 2, 3, 4, 5, 6]),
        "is_check_move" => v.extend([8]),
        "in_check" => v.extend([7]),
        "key" => v.extend([12, 13]),
        "read" => v.extend([9, 18]),
        "clone" => v.extend([16]),
        "perft" => v.extend([21]),
        _ => {}
    }
    v.extend([19, 17, 20, 22]);
    v
}

/// Properties (by number) this event seems to violate, by the scout's reading.
pub fn suspicious(ev: &Event, ex: &Exec, prev_gives: Option<bool>) -> Vec<(u8, String)> {
    let mut v: Vec<(u8, String)> = vec![];
    if let Some(p) = &ev.panic {
        for n in panic_props(p) {
            v.push((n, format!("panic {p}")));
        }
        return v;
    }
    let o = obj_of(&ev.op);
    let ob = match &ex.objs[o] {
        Some(x) => x,
        None => return v,
    };
    let nd = ob.top();
    let p = &nd.pos;
    let kingless = king_sq(&p.b, 0) == 0 || king_sq(&p.b, 1) == 0;
    let isnew = matches!(ev.op, Op::New { .. });
    let push = |v: &mut Vec<(u8, String)>, n: u8, s: String| {
        v.push((n, s.clone()));
        if kingless {
            v.push((19, s));
        }
    };
    if let Some(st) = &ev.ob.st {
        if st != p {
            if isnew {
                push(&mut v, 18, "constructed state differs".into());
            } else if matches!(ev.op, Op::Do { .. } | Op::Line { .. }) {
                push(&mut v, 9, "state after move differs".into());
            } else {
                push(&mut v, 10, "state differs".into());
            }
        }
        if !st.valid() || (1..=7).any(|k| st.material(k) != ob.st[0].pos.material(k)) {
            v.push((22, "invariant broken".into()));
        }
        if matches!(ev.op, Op::Adopt { .. }) && ob.st.len() >= 2 {
            let q = &ob.st[ob.st.len() - 2].pos;
            if st.c == q.c || st.ply != q.ply + 1 {
                v.push((22, "turn or move number".into()));
            }
        }
        for c in 0..2 {
            if (king_sq(&st.b, c) == 0) != (king_sq(&ob.st[0].pos.b, c) == 0) {
                v.push((22, "king lost".into()));
            }
        }
    }
    if let Some(c) = ev.ob.chk {
        if c != nd.an.chk {
            push(&mut v, 7, format!("check flag {c}"));
            if isnew {
                v.push((18, "check flag".into()));
            }
        }
        if let Some(pre) = ev.pre {
            if pre != c {
                push(&mut v, 8, "predicted check flag differs from the one reported".into());
            }
        }
    }
    if let (Some(pre), Some(g)) = (ev.pre, prev_gives) {
        if pre != g {
            push(&mut v, 8, "gives-check answer".into());
        }
    }
    if let Some(gc) = &ev.ob.gc {
        if gc != &nd.an.gives {
            push(&mut v, 8, format!("gives check: code {:?} rules {:?}", diff(gc, &nd.an.gives), diff(&nd.an.gives, gc)));
        }
    }
    if let Some(leg) = &ev.ob.leg {
        if leg != &nd.an.legal {
            let extra = diff(leg, &nd.an.legal);
            let missing = diff(&nd.an.legal, leg);
            let s = format!("extra {extra:?} missing {missing:?} of {} / {}", leg.len(), nd.an.legal.len());
            push(&mut v, 1, s.clone());
            if isnew && matches!(ev.op, Op::New { dflt: true, .. }) {
                v.push((18, s.clone()));
            }
            if nd.an.chk || leg.is_empty() != nd.an.legal.is_empty() {
                v.push((3, s.clone()));
            }
            let oks = king_sq(&p.b, 1 - p.c);
            let ks = king_sq(&p.b, p.c);
            for (&m, ex) in extra.iter().map(|m| (m, true)).chain(missing.iter().map(|m| (m, false))) {
                let own = m < 20000 && m_from(m) <= 81 && m_from(m) >= 1 && {
                    let q = p.b[m_from(m) as usize];
                    q != 0 && col(q) == p.c
                };
                let drop = (20000..30000).contains(&m) && m_to(m) <= 81;
                if ex && (own || drop) && m_to(m) <= 81 && !(is_promo(m) && PROMOTE_TO[kind(p.b[m_from(m) as usize]) as usize] == 0)
                    && !p.safe(ks, m) {
                    v.push((2, s.clone()));
                }
                if m >= 20000 {
                    if drop && Pos::is_pawn_drop(m) && p.gives_check(oks, m) {
                        v.push((5, s.clone()));
                    } else {
                        v.push((4, s.clone()));
                    }
                } else if is_promo(m) || (own && {
                    let q = p.b[m_from(m) as usize];
                    PROMOTE_TO[kind(q) as usize] != 0
                        && m_to(m) <= 81
                        && (in_zone(m_from(m), p.c) || in_zone(m_to(m), p.c))
                }) {
                    v.push((6, s.clone()));
                }
            }
        }
    }
    if let Some((k, k0, k1)) = ev.ob.key {
        if k != k0 ^ k1 {
            v.push((12, "combined key".into()));
        }
    }
    // relations between observations
    match &ev.op {
        Op::Undo { .. } | Op::Back { .. } | Op::Churn { .. } => {
            if let Some(d) = obs_differ(&ev.ob, &nd.obs) {
                push(&mut v, 10, d.clone());
                if ev.ob.key.is_some() && ev.ob.key != nd.obs.key {
                    v.push((12, d));
                }
            }
        }
        Op::Clone { .. } => {
            if let Some(d) = obs_differ(&ev.ob, &nd.obs) {
                push(&mut v, 16, d);
            }
        }
        Op::Query { .. } => {
            if let Some(d) = obs_differ(&ev.ob, &nd.obs) {
                push(&mut v, 16, d.clone());
                v.push((20, d));
            }
        }
        Op::Perft { d, .. } => {
            if let Some(dd) = obs_differ(&ev.ob, &nd.obs) {
                v.push((21, dd));
            }
            if let Some((n, _)) = &ev.perft {
                if *n != p.perft(*d as usize) {
                    v.push((21, format!("perft {d} = {n}")));
                }
            }
        }
        _ => {}
    }
    if let Some(fr) = &ev.fr {
        if let Some(d) = obs_differ(&ev.ob, fr) {
            v.push((11, d.clone()));
            if ev.ob.key.is_some() && ev.ob.key != fr.key {
                v.push((12, d));
            }
        }
    }
    if let Some(rp) = &ev.rp {
        if let Some(d) = obs_differ(&ev.ob, rp) {
            v.extend([10, 16, 20].map(|n| (n, format!("same calls elsewhere: {d}"))));
        }
    }
    if let Sym::Turn(of) | Sym::Mirror(of) = ev.sym {
        if let Some(Some(q)) = ex.objs.get(of) {
            let a = &q.top().obs;
            let f = |m: u32| if let Sym::Turn(_) = ev.sym { turn_move(m) } else { mirror_move(m) };
            let img = |l: &Vec<u32>| {
                // answers about moves that are no moves at all can not be transformed
                let mut w: Vec<u32> = l.iter().map(|&m| if m < 30000 && m_to(m) <= 81 && m_from(m) <= 81 && m_from(m) >= 1 { f(m) } else { m }).collect();
                w.sort_unstable();
                w
            };
            let bad = a.chk.is_some() && ev.ob.chk.is_some() && a.chk != ev.ob.chk
                || a.leg.is_some() && ev.ob.leg.is_some() && a.leg.as_ref().map(img) != ev.ob.leg
                || a.gc.is_some() && ev.ob.gc.is_some() && a.gc.as_ref().map(img) != ev.ob.gc;
            if bad {
                v.push((17, "answers of the transformed position differ".into()));
            }
        }
    }
    v
}
