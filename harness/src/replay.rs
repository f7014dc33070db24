//! Replay of executions given as text: behaviours generated by TLC, with the answers the
//! specification predicts, and the scripts of reported violations.
//!
//!   T id                      a new execution
//!   N o dflt b*81 h*14 c ply  construct object o
//!   D o m | U o | C o n | Q o | P o d | A o m | R o n m*
//!   S turn|mirror of          the next operation's object follows object `of`
//!   E chk n m*n g m*g         what the specification says of the state reached
use crate::code::*;
use crate::exec::*;
use crate::model::*;
use std::io::Write;

pub fn replay(a: &crate::Args) {
    let text = std::fs::read_to_string(a.get("--script").unwrap()).unwrap();
    let mask = a.get("--prop").map_or(ALL, |p| crate::script::base_mask(p.parse().unwrap()));
    // write only executions whose answers differ from the expected ones
    let only_bad = a.has("--only-bad");
    let limit = a.num("--limit", u64::MAX) as usize;
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.get("--out").unwrap()).unwrap());
    let mut log = a.get("--log").map(|l| std::fs::File::create(l).unwrap());
    let mut id = String::from("script");
    let all = a.get("--prop") != Some("10");
    let mut ex = Exec { rp_all: all, ..Exec::new() };
    let mut evs: Vec<Event> = vec![];
    let mut bad = false;
    let mut sym = Sym::None;
    let (mut traces, mut events, mut expected, mut wrong) = (0usize, 0usize, 0usize, 0usize);
    let mut flush = |id: &str, evs: &mut Vec<Event>, bad: &mut bool| {
        if !evs.is_empty() {
            traces += 1;
            events += evs.len();
            if *bad {
                wrong += 1;
            }
            if (*bad || !only_bad) && (!*bad || wrong <= limit) {
                writeln!(out, "{}", trace_json(id, evs)).unwrap();
            }
        }
        evs.clear();
        *bad = false;
    };
    for line in text.lines() {
        let mut w = line.split_ascii_whitespace();
        let Some(c) = w.next() else { continue };
        if c == "T" {
            flush(&id, &mut evs, &mut bad);
            id = w.next().unwrap_or("t").to_string();
            ex = Exec { rp_all: all, ..Exec::new() };
            if let Some(l) = &log {
                // a log is of one execution
                let _ = l.set_len(0);
                ex.log = l.try_clone().ok();
                use std::io::Seek;
                let _ = log.as_mut().unwrap().seek(std::io::SeekFrom::Start(0));
            }
            continue;
        }
        if c == "S" {
            let turn = w.next() == Some("turn");
            let of: usize = w.next().unwrap().parse().unwrap();
            sym = if turn { Sym::Turn(of) } else { Sym::Mirror(of) };
            continue;
        }
        let v: Vec<i64> = w.map(|x| x.parse().unwrap()).collect();
        let u = |i: usize| v[i] as usize;
        let op = match c {
            "N" => {
                let mut p = Pos::empty();
                for s in 0..81 {
                    p.b[s + 1] = v[2 + s] as u8;
                }
                for k in 0..7 {
                    p.h[0][k + 1] = v[83 + k] as u8;
                    p.h[1][k + 1] = v[90 + k] as u8;
                }
                p.c = u(97) - 1;
                p.ply = v[98] as u32;
                Op::New { o: u(0), src: Box::new(p), dflt: v[1] != 0, via: None }
            }
            "D" => Op::Do { o: u(0), m: v[1] as u32 },
            "A" => Op::Adopt { o: u(0), m: v[1] as u32 },
            "U" => Op::Undo { o: u(0) },
            "C" => Op::Clone { o: u(0), n: u(1) },
            "R" => Op::Churn { o: u(0), n: v[1] as u32, ms: v[2..].iter().map(|&m| m as u32).collect() },
            "L" => Op::Line { o: u(0), ms: v[1..].iter().map(|&m| m as u32).collect() },
            "B" => Op::Back { o: u(0), k: u(1) },
            "Q" => Op::Query { o: u(0) },
            "P" => Op::Perft { o: u(0), d: v[1] as u32 },
            "E" => {
                expected += 1;
                let Some(e) = evs.last() else { continue };
                if e.panic.is_some() {
                    bad = true;
                    continue;
                }
                let n = u(1);
                let leg: Vec<u32> = v[2..2 + n].iter().map(|&x| x as u32).collect();
                let g = u(2 + n);
                let gc: Vec<u32> = v[3 + n..3 + n + g].iter().map(|&x| x as u32).collect();
                if e.ob.chk.is_some_and(|c| c != (v[0] != 0))
                    || e.ob.leg.as_ref().is_some_and(|l| *l != leg)
                    || e.ob.gc.as_ref().is_some_and(|l| *l != gc)
                {
                    bad = true;
                }
                if let Some(Some(o)) = ex.objs.get(obj_of(&e.op)) {
                    if e.ob.st.as_ref().is_some_and(|s| *s != o.top().pos) {
                        bad = true;
                    }
                }
                continue;
            }
            _ => panic!("bad line {line}"),
        };
        if ex.dead {
            continue;
        }
        let prev = if let Op::Do { o, m } = &op {
            Some(ex.obj(*o).top().an.gives.binary_search(m).is_ok())
        } else {
            None
        };
        let ev = ex.step(op, sym, mask & PRE != 0, |_, _| mask);
        sym = Sym::None;
        if !suspicious(&ev, &ex, prev).is_empty() {
            bad = true;
        }
        ex.remember(&ev);
        evs.push(ev);
    }
    flush(&id, &mut evs, &mut bad);
    drop(flush);
    out.flush().unwrap();
    println!("{{\"traces\":{traces},\"events\":{events},\"expected\":{expected},\"wrong\":{wrong}}}");
}
