//! The code under test, seen through its public API, one guarded call at a time.
use crate::model::{self, Pos};
use shogi_core::{Color, Hand, Move, PartialPosition, Piece, PieceKind, Square};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn colour(c: usize) -> Color {
    if c == 0 {
        Color::Black
    } else {
        Color::White
    }
}
fn kind_of(k: u8) -> PieceKind {
    PieceKind::from_u8(k).unwrap()
}
pub fn to_partial(p: &Pos) -> PartialPosition {
    let mut q = PartialPosition::empty();
    for s in 1..=81u8 {
        let x = p.b[s as usize];
        if x != 0 {
            q.piece_set(
                Square::from_u8(s).unwrap(),
                Some(Piece::new(kind_of(model::kind(x)), colour(model::col(x)))),
            );
        }
    }
    for c in 0..2 {
        let mut h = Hand::new();
        for k in 1..=7u8 {
            for _ in 0..p.h[c][k as usize] {
                h = h.added(kind_of(k)).unwrap();
            }
        }
        *q.hand_of_a_player_mut(colour(c)) = h;
    }
    q.side_to_move_set(colour(p.c));
    assert!(q.ply_set(p.ply as u16));
    q
}
pub fn to_move(m: u32, c: usize) -> Move {
    if model::is_drop(m) {
        Move::Drop {
            piece: Piece::new(kind_of(model::m_from(m)), colour(c)),
            to: Square::from_u8(model::m_to(m)).unwrap(),
        }
    } else {
        Move::Normal {
            from: Square::from_u8(model::m_from(m)).unwrap(),
            to: Square::from_u8(model::m_to(m)).unwrap(),
            promote: model::is_promo(m),
        }
    }
}
/// Encode a move the code reported. Anything that no move of the model can be encoded as
/// (bad square, drop of the wrong colour or of a promoted piece) gets a number of its own.
pub fn from_move(m: Move, c: usize) -> u32 {
    let lim = |s: Square| -> u32 {
        let i = s.index();
        if (1..=81).contains(&i) {
            i as u32
        } else {
            99
        }
    };
    match m {
        Move::Normal { from, to, promote } => 10000 * promote as u32 + 100 * lim(from) + lim(to),
        Move::Drop { piece, to } => {
            let (k, pc) = piece.to_parts();
            let k = k as u32;
            if pc != colour(c) || k > 7 {
                30000 + 100 * k + lim(to)
            } else {
                20000 + 100 * k + lim(to)
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Obs {
    pub st: Option<Pos>,
    pub chk: Option<bool>,
    pub key: Option<(u64, u64, u64)>,
    /// sorted; duplicates kept
    pub leg: Option<Vec<u32>>,
    /// the moves asked about that are said to give check
    pub gc: Option<Vec<u32>>,
}

pub const ST: u8 = 1;
pub const CHK: u8 = 2;
pub const KEY: u8 = 4;
pub const LEG: u8 = 8;
pub const GC: u8 = 16;
pub const FRESH: u8 = 32;
pub const PRE: u8 = 64;
/// also ask an object made by the same calls, without any queries (see Exec::rp_all)
pub const RP: u8 = 128;
pub const ALL: u8 = ST | CHK | KEY | LEG | GC;

pub type Panic = String;

pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Panic> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let s = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        format!("{what}: {s}")
    })
}

pub fn make(p: &Pos) -> Result<yasai::Position, Panic> {
    let q = to_partial(p);
    guard("new", || yasai::Position::new(q))
}

/// Of the same position, but from a description on which the last move was played (it knows the move).
pub fn make_via(q: &Pos, m: u32, p: &Pos) -> Result<yasai::Position, Panic> {
    let plain = to_partial(p);
    let mut d = to_partial(q);
    let played = d.make_move(to_move(m, q.c)).is_some();
    let same = played
        && Square::all().all(|s| d.piece_at(s) == plain.piece_at(s))
        && Color::all().iter().all(|&c| d.hand_of_a_player(c) == plain.hand_of_a_player(c))
        && d.side_to_move() == plain.side_to_move()
        && d.ply() == plain.ply();
    // shogi_core is not what is being checked
    guard("new", || yasai::Position::new(if same { d } else { plain }))
}

pub fn read_state(x: &yasai::Position) -> Result<Pos, Panic> {
    guard("read", || {
        let mut p = Pos::empty();
        for s in Square::all() {
            if let Some(q) = x.piece_at(s) {
                let (k, c) = q.to_parts();
                p.b[s.index() as usize] = model::piece(k as u8, if c == Color::Black { 0 } else { 1 });
            }
        }
        for c in 0..2 {
            let h = x.hand(colour(c));
            for k in 1..=7u8 {
                p.h[c][k as usize] = h.count(kind_of(k)).unwrap_or(99);
            }
        }
        p.c = if x.side_to_move() == Color::Black { 0 } else { 1 };
        p.ply = x.ply() as u32;
        p
    })
}

/// Observe what `mask` asks for. `ask`: the moves to ask 'does it give check' about; `c`: whose
/// turn it is by the model.
pub fn observe(x: &yasai::Position, mask: u8, ask: &[u32], c: usize) -> Result<Obs, Panic> {
    let mut o = Obs::default();
    if mask & ST != 0 {
        o.st = Some(read_state(x)?);
    }
    if mask & CHK != 0 {
        o.chk = Some(guard("in_check", || x.in_check())?);
    }
    if mask & KEY != 0 {
        o.key = Some(guard("key", || {
            let k = x.keys();
            (x.key(), k.0, k.1)
        })?);
    }
    if mask & LEG != 0 {
        let mut v: Vec<u32> =
            guard("legal_moves", || x.legal_moves().into_iter().map(|m| from_move(m, c)).collect())?;
        v.sort_unstable();
        o.leg = Some(v);
    }
    if mask & GC != 0 {
        o.gc = Some(guard("is_check_move", || {
            ask.iter().copied().filter(|&m| x.is_check_move(to_move(m, c))).collect()
        })?);
    }
    Ok(o)
}
