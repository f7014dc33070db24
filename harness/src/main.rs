mod code;
mod collide;
mod exec;
mod families;
mod gen;
mod keys;
mod model;
mod replay;
mod script;

use exec::*;
use script::Run;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Args(Vec<String>);
impl Args {
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |s| s.parse().unwrap_or_else(|_| panic!("bad number for {k}")))
    }
    pub fn has(&self, k: &str) -> bool {
        self.0.iter().any(|a| a == k)
    }
}

/// What of an execution TLC must see to judge its last event: the calls, and few of the answers.
fn strip(prop: u8, evs: &[Event]) -> Vec<Event> {
    let mut v = evs.to_vec();
    let n = v.len().saturating_sub(1);
    if (1..=8).contains(&prop) {
        for e in &mut v[..n] {
            e.ob = code::Obs::default();
            e.fr = None;
            e.pre = None;
        }
    } else if n > 300 {
        // how deep each event's object is after it
        let mut at: Vec<usize> = vec![];
        let mut depth = [0usize; 16];
        for e in evs {
            let o = obj_of(&e.op);
            match &e.op {
                Op::New { .. } => depth[o] = 0,
                Op::Do { .. } | Op::Adopt { .. } => depth[o] += 1,
                Op::Undo { .. } => depth[o] -= 1,
                Op::Line { ms, .. } => depth[o] += ms.len(),
                Op::Back { k, .. } => depth[o] -= k,
                Op::Clone { o: from, n } => depth[*n] = depth[*from],
                _ => {}
            }
            at.push(depth[o]);
        }
        let d = at[n];
        for (i, e) in v.iter_mut().enumerate() {
            if i + 30 > n || at[i] == d && i + 300 > n {
                continue;
            }
            if at[i] != d || matches!(e.op, Op::Undo { .. } | Op::Back { .. }) {
                e.ob.leg = None;
                e.ob.gc = None;
            }
            e.pre = None;
            e.fr = None;
            e.rp = None;
            if prop != 22 && at[i] != d {
                e.ob.st = None;
            }
        }
    }
    v
}

/// Recorded executions for TLC: chunks until the budget is used up.
fn record(a: &Args) {
    let prop = a.num("--prop", 0) as u8;
    let seed = a.num("--seed", 1);
    let max_heavy = a.num("--heavy", 1000) as usize;
    let max_events = a.num("--events", 5000) as usize;
    let from = a.num("--from", 0);
    let max_chunks = a.num("--chunks", u64::MAX);
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.get("--out").unwrap()).unwrap());
    let (mut heavy, mut events, mut traces, mut nt) = (0, 0, 0, 0);
    let mut idx = from;
    let mut ops: HashMap<&str, usize> = HashMap::new();
    let dir = a.get("--dir").unwrap().to_string();
    let watch = Watch::new(1);
    watch.start(dir.clone());
    let cur = format!("{dir}/cur0");
    if let Some(b) = a.get("--base") {
        // systematic executions first
        for (id, mut r) in keys::systematic(b, prop) {
            r.drain(|evs| {
                let _ = writeln!(out, "{}", trace_json(&id, evs));
                traces += 1;
                events += evs.len();
            });
        }
    }
    while heavy < max_heavy && events < max_events && idx - from < max_chunks {
        let mut r = Run::new(prop, seed, idx, true);
        r.ex.beat = Some(watch.beats[0].clone());
        std::fs::write(&cur, format!("{idx}")).unwrap();
        watch.chunk[0].store(idx, Ordering::Relaxed);
        r.chunk();
        watch.chunk[0].store(u64::MAX, Ordering::Relaxed);
        idx += 1;
        // nothing to compare in an execution without answers
        let relevant = r.evs.iter().any(|e| {
            e.panic.is_some()
                || e.perft.is_some()
                || match prop {
                    1..=6 => e.ob.leg.is_some(),
                    8 => e.ob.gc.is_some() || e.pre.is_some(),
                    _ => true,
                }
        });
        if r.evs.is_empty() || !relevant {
            continue;
        }
        heavy += r.heavy;
        events += r.evs.len();
        nt += r.nontrivial;
        traces += 1;
        for e in &r.evs {
            *ops.entry(match e.op {
                Op::New { .. } => "new",
                Op::Do { .. } => "do",
                Op::Undo { .. } => "undo",
                Op::Clone { .. } => "clone",
                Op::Query { .. } => "query",
                Op::Perft { .. } => "perft",
                Op::Adopt { .. } => "adopt",
                Op::Churn { .. } => "churn",
                Op::Line { .. } => "line",
                Op::Back { .. } => "back",
            })
            .or_default() += 1;
        }
        writeln!(out, "{}", trace_json(&format!("s{seed}c{}", idx - 1), &r.evs)).unwrap();
    }
    out.flush().unwrap();
    let ops: Vec<String> = ops.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    println!(
        "{{\"traces\":{traces},\"events\":{events},\"heavy\":{heavy},\"nontrivial\":{nt},\"ops\":{{{}}}}}",
        ops.join(",")
    );
}

/// What a thread has in ordinary use, or less: the library must not need more, however long the game.
const STACK: usize = 1 << 20;

struct Watch {
    beats: Vec<Arc<AtomicU64>>,
    chunk: Vec<Arc<AtomicU64>>,
}
impl Watch {
    fn new(n: usize) -> Watch {
        Watch {
            beats: (0..n).map(|_| Arc::new(AtomicU64::new(0))).collect(),
            chunk: (0..n).map(|_| Arc::new(AtomicU64::new(u64::MAX))).collect(),
        }
    }
    /// End the process when one call takes longer than any call can.
    fn start(&self, dir: String) {
        let beats = self.beats.clone();
        let chunk = self.chunk.clone();
        std::thread::spawn(move || {
            let mut last: Vec<(u64, Instant)> = beats.iter().map(|_| (0, Instant::now())).collect();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                for (i, b) in beats.iter().enumerate() {
                    let v = b.load(Ordering::Relaxed);
                    if v != last[i].0 || chunk[i].load(Ordering::Relaxed) == u64::MAX {
                        last[i] = (v, Instant::now());
                    } else if v % 2 == 0 && last[i].1.elapsed() > Duration::from_secs(120) {
                        // not in a call: the harness itself does not come back
                        eprintln!("conform: chunk {} does not end", chunk[i].load(Ordering::Relaxed));
                        std::process::exit(5);
                    } else if v % 2 == 1 && last[i].1.elapsed() > Duration::from_secs(25) {
                        let _ = std::fs::write(format!("{dir}/hang"), format!("{}", chunk[i].load(Ordering::Relaxed)));
                        std::process::exit(3);
                    }
                }
            }
        });
    }
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn pos_hash(p: &model::Pos) -> u64 {
    hash_of(&(&p.b[..], p.h, p.c))
}

/// The blocks of all families of a property, families by turns, each in a scattered order.
fn family_plan(prop: u8, seed: u64) -> Vec<u64> {
    let fs: Vec<(usize, u64)> = families::of(prop)
        .iter()
        .map(|f| {
            let i = families::all().iter().position(|g| g.name == f.0).unwrap();
            (i, families::all()[i].blocks())
        })
        .collect();
    let mut v = vec![];
    let most = fs.iter().map(|f| f.1).max().unwrap_or(0);
    for j in 0..most {
        for &(i, n) in &fs {
            if j < n {
                // a prime larger than any number of blocks: a permutation of them
                let b = ((j + seed * 977) as u128 * 2_147_483_647u128 % n as u128) as u64;
                v.push(script::FAMILY + ((i as u64) << 32) + b);
            }
        }
    }
    v
}

/// Search: the code against the scout on as much generated use as time allows.
fn scout(a: &Args) {
    let prop = a.num("--prop", 0) as u8;
    let seed = a.num("--seed", 1);
    let secs = a.num("--time", 10);
    let threads = a.num("--threads", 8) as usize;
    let max_cand = a.num("--cands", 4) as usize;
    let dir = a.get("--dir").unwrap().to_string();
    let next = Arc::new(AtomicU64::new(if a.has("--long") { script::LONG } else { a.num("--from", 0) }));
    let found = Arc::new(AtomicUsize::new(0));
    let watch = Watch::new(threads);
    watch.start(dir.clone());
    let totals = Arc::new(Mutex::new((0u64, 0u64, 0u64, 0u64)));
    // blocks of the property's families by turns, or generated use
    let plan = Arc::new(if a.has("--families") { family_plan(prop, seed) } else { vec![] });
    if a.has("--families") && plan.is_empty() {
        println!("{{\"chunks\":0,\"events\":0,\"nontrivial\":0,\"distinct\":0,\"candidates\":0}}");
        return;
    }
    let end = Instant::now() + Duration::from_secs(secs);
    let mut hs = vec![];
    for th in 0..threads {
        let (next, found, dir, totals) = (next.clone(), found.clone(), dir.clone(), totals.clone());
        let (beat, chunk, plan) = (watch.beats[th].clone(), watch.chunk[th].clone(), plan.clone());
        hs.push(std::thread::Builder::new().stack_size(STACK).spawn(move || {
            let mut distinct: HashSet<u64> = HashSet::new();
            let (mut chunks, mut events, mut nt) = (0, 0, 0);
            let cur = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{dir}/cur{th}")).unwrap();
            let mut keydb = keys::KeyDb::new();
            while Instant::now() < end && found.load(Ordering::Relaxed) < max_cand {
                let mut idx = next.fetch_add(1, Ordering::Relaxed);
                if !plan.is_empty() {
                    match plan.get(idx as usize) {
                        Some(&i) => idx = i,
                        None => break,
                    }
                }
                use std::os::unix::fs::FileExt;
                let _ = cur.write_at(format!("{idx:20}").as_bytes(), 0);
                chunk.store(idx, Ordering::Relaxed);
                let mut r = Run::new(prop, seed, idx, false);
                r.ex.beat = Some(beat.clone());
                r.chunk();
                chunk.store(u64::MAX, Ordering::Relaxed);
                chunks += 1;
                events += r.states;
                nt += r.nontrivial;
                if distinct.len() < 400_000 {
                    for o in r.ex.objs.iter().flatten() {
                        for n in &o.st {
                            distinct.insert(pos_hash(&n.pos));
                        }
                    }
                }
                let mut cand: Option<(String, Vec<Event>)> = None;
                if let Some((p, why)) = &r.flagged {
                    cand = Some((format!("C{p:02} {why}"), strip(prop, &r.evs)));
                } else if prop == 12 || prop == 13 {
                    if let Some((why, evs)) = keydb.add(prop, &r) {
                        cand = Some((why, evs));
                    }
                }
                if let Some((why, evs)) = cand {
                    let n = found.fetch_add(1, Ordering::Relaxed);
                    if n < max_cand {
                        let mut f = std::fs::File::create(format!("{dir}/cand{n}.ndjson")).unwrap();
                        writeln!(f, "{}", trace_json(&format!("s{seed}c{idx}"), &evs)).unwrap();
                        std::fs::write(format!("{dir}/cand{n}.why"), why).unwrap();
                        // in full, in case that was not enough
                        let full = format!("{}\n", trace_json(&format!("s{seed}c{idx}"), &r.evs));
                        std::fs::write(format!("{dir}/cand{n}.full"), full).unwrap();
                    }
                }
            }
            let _ = std::fs::remove_file(format!("{dir}/cur{th}"));
            let mut t = totals.lock().unwrap();
            t.0 += chunks;
            t.1 += events;
            t.2 += nt;
            t.3 += distinct.len() as u64;
        }).unwrap());
    }
    for h in hs {
        h.join().unwrap();
    }
    let t = totals.lock().unwrap();
    println!(
        "{{{}\"chunks\":{},\"events\":{},\"nontrivial\":{},\"distinct\":{},\"candidates\":{}}}",
        if plan.is_empty() {
            String::new()
        } else {
            format!(
                "\"families\":\"{}\",\"part\":{:.4},",
                families::of(prop).iter().map(|f| f.0).collect::<Vec<_>>().join(","),
                t.0 as f64 / plan.len() as f64
            )
        },
        t.0,
        t.1,
        t.2,
        t.3,
        found.load(Ordering::Relaxed).min(max_cand)
    );
}

/// One line per chunk: a digest of every answer given in it.
fn digest(a: &Args) {
    let prop = a.num("--prop", 14) as u8;
    let seed = a.num("--seed", 1);
    let from = if a.has("--long") { script::LONG } else { a.num("--from", 0) };
    let n = a.num("--chunks", 1000);
    let threads = a.num("--threads", 4) as usize;
    let dir = a.get("--dir").unwrap().to_string();
    let out = a.get("--out").unwrap();
    let next = Arc::new(AtomicU64::new(from));
    let watch = Watch::new(threads);
    watch.start(dir.clone());
    let all = Arc::new(Mutex::new(vec![]));
    let events = Arc::new(AtomicU64::new(0));
    let plan = Arc::new(if a.has("--families") { family_plan(prop, seed) } else { vec![] });
    let mut hs = vec![];
    for th in 0..threads {
        let (next, all, dir, events, plan) = (next.clone(), all.clone(), dir.clone(), events.clone(), plan.clone());
        let (beat, chunk) = (watch.beats[th].clone(), watch.chunk[th].clone());
        hs.push(std::thread::Builder::new().stack_size(STACK).spawn(move || {
            let cur = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{dir}/cur{th}")).unwrap();
            let mut mine = vec![];
            loop {
                let mut idx = next.fetch_add(1, Ordering::Relaxed);
                if idx >= from + n {
                    break;
                }
                if !plan.is_empty() {
                    match plan.get(idx as usize) {
                        Some(&i) => idx = i,
                        None => break,
                    }
                }
                use std::os::unix::fs::FileExt;
                let _ = cur.write_at(format!("{idx:20}").as_bytes(), 0);
                chunk.store(idx, Ordering::Relaxed);
                // recorded runs do not stop at anything but a panic
                let mut r = Run::new(prop, seed, idx, true);
                r.ex.beat = Some(beat.clone());
                r.chunk();
                chunk.store(u64::MAX, Ordering::Relaxed);
                events.fetch_add(r.states, Ordering::Relaxed);
                let mut h = std::collections::hash_map::DefaultHasher::new();
                for e in &r.evs {
                    e.pre.hash(&mut h);
                    e.panic.is_some().hash(&mut h);
                    if let Some(p) = &e.ob.st {
                        (&p.b[..], p.h, p.c, p.ply).hash(&mut h);
                    }
                    (e.ob.chk, e.ob.key, &e.ob.leg, &e.ob.gc).hash(&mut h);
                }
                mine.push((idx, h.finish()));
            }
            let _ = std::fs::remove_file(format!("{dir}/cur{th}"));
            all.lock().unwrap().extend(mine);
        }).unwrap());
    }
    for h in hs {
        h.join().unwrap();
    }
    let mut v = all.lock().unwrap();
    v.sort_unstable();
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for (i, h) in v.iter() {
        writeln!(f, "{i} {h:016x}").unwrap();
    }
    println!("{{\"chunks\":{},\"events\":{}}}", v.len(), events.load(Ordering::Relaxed));
}

/// Run one chunk, writing every operation to a log before it is made.
fn one_chunk(a: &Args) {
    let prop = a.num("--prop", 0) as u8;
    let rec = a.has("--rec");
    let mut r = Run::new(prop, a.num("--seed", 1), a.num("--idx", 0), rec);
    if let Some(l) = a.get("--log") {
        r.ex.log = Some(std::fs::File::create(l).unwrap());
    }
    let w = Watch::new(1);
    w.chunk[0].store(0, Ordering::Relaxed);
    w.start(a.get("--dir").unwrap().to_string());
    r.ex.beat = Some(w.beats[0].clone());
    r.chunk();
    if let Some(o) = a.get("--out") {
        std::fs::write(o, format!("{}\n", trace_json(a.get("--id").unwrap_or("chunk"), &r.evs))).unwrap();
    }
    if let Some((p, why)) = &r.flagged {
        println!("flagged C{p:02} {why}");
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().cloned().unwrap_or_default();
    let a = Args(args);
    // panics of the code under test are recorded, not printed
    if !a.has("--loud") {
        std::panic::set_hook(Box::new(|i| {
            if std::thread::current().name() == Some("main") && std::env::var("CONFORM_LOUD").is_ok() {
                eprintln!("{i}");
            }
        }));
    }
    let h = std::thread::Builder::new().name("main".into()).stack_size(STACK).spawn(move || match cmd.as_str() {
        "record" => record(&a),
        "scout" => scout(&a),
        "digest" => digest(&a),
        "collide" => collide::collide(&a),
        "chunk" => one_chunk(&a),
        "replay" => replay::replay(&a),
        _ => {
            eprintln!("conform record|scout|collide|digest|chunk|replay");
            std::process::exit(2);
        }
    });
    if h.unwrap().join().is_err() {
        eprintln!("conform: internal panic (run with CONFORM_LOUD=1)");
        std::process::exit(4);
    }
}
