//! Larger arenas than can be explored exhaustively: each is built by a fixed history, then every kind of
//! operation is tried at a few places, and the arena is used some more.

use crate::engine::*;
use crate::px::Px;
use crate::{w_arena as wa, w_chain as wc, w_ord as wo, w_surject as ws};

pub enum Step {
    Remove,
    Invalidate,
    Clear,
    Compress,
    Reserve,
}

pub trait Large: World {
    /// number of ways to insert many elements
    const SHAPES: u64;
    /// kind and arguments
    fn parts(op: &Self::Op) -> (u32, [u16; 3]);
    /// arguments that stand for the elements
    fn places(&self) -> Vec<u16>;
    /// the `i`th insertion
    fn ins(&self, shape: u64, i: usize) -> Option<Self::Op>;
    fn step(s: Step, a: u16) -> Self::Op;
}

impl<P: Px> Large for wa::ArenaWorld<P> {
    const SHAPES: u64 = 2;
    fn parts(op: &wa::Op) -> (u32, [u16; 3]) {
        (op.k as u32, [op.a, op.b, 0])
    }
    fn places(&self) -> Vec<u16> {
        self.s.b.live.keys().map(|x| *x as u16).collect()
    }
    fn ins(&self, shape: u64, _: usize) -> Option<wa::Op> {
        Some(wa::Op { k: if shape == 0 { wa::K::Insert } else { wa::K::InsertWith }, a: 0, b: 0 })
    }
    fn step(s: Step, a: u16) -> wa::Op {
        let k = match s {
            Step::Remove => wa::K::Remove,
            Step::Invalidate => wa::K::Invalidate,
            Step::Clear => wa::K::Clear,
            Step::Compress => wa::K::Compress,
            Step::Reserve => wa::K::Reserve,
        };
        wa::Op { k, a, b: 0 }
    }
}

impl<P: Px, C: wc::Ch<P>> Large for wc::ChainWorld<P, C> {
    const SHAPES: u64 = 4;
    fn parts(op: &wc::Op) -> (u32, [u16; 3]) {
        (op.k as u32, [op.a, op.b, 0])
    }
    fn places(&self) -> Vec<u16> {
        self.s.b.live.keys().map(|x| *x as u16).collect()
    }
    fn ins(&self, shape: u64, i: usize) -> Option<wc::Op> {
        let last = || self.last() as u16;
        let (k, a, b) = match shape {
            // one chain, made at its end
            0 if i > 0 && !self.s.b.is_empty() => (wc::K::Insert, last(), 0),
            // one cycle, made backwards
            1 if i == 0 => (wc::K::InsertCyc, 0, 0),
            1 if !self.s.b.is_empty() => (wc::K::Insert, 0, last()),
            // chains of three links
            2 if i % 3 != 0 && !self.s.b.is_empty() => (wc::K::Insert, last(), 0),
            _ => (wc::K::InsertNew, 0, 0),
        };
        Some(wc::Op { k, a, b })
    }
    fn step(s: Step, a: u16) -> wc::Op {
        let k = match s {
            Step::Remove => wc::K::Remove,
            Step::Invalidate => wc::K::Invalidate,
            Step::Clear => wc::K::Clear,
            Step::Compress => wc::K::Compress,
            Step::Reserve => wc::K::Reserve,
        };
        wc::Op { k, a, b: 0 }
    }
}

impl<P: Px> Large for wo::OrdWorld<P> {
    const SHAPES: u64 = 4;
    fn parts(op: &wo::Op) -> (u32, [u16; 3]) {
        (op.k as u32, [op.a, op.b, op.c])
    }
    fn places(&self) -> Vec<u16> {
        (0..self.s.n() as u16).collect()
    }
    fn ins(&self, shape: u64, i: usize) -> Option<wo::Op> {
        let n = self.s.n();
        let level = (i + 1).ilog2();
        let off = i + 1 - (1 << level);
        let at = match shape {
            // into every gap, level by level
            0 => 2 * off,
            1 => (1usize << level) - 1 - off,
            // at the ends
            2 => n,
            _ => 0,
        };
        let at = at.min(n);
        let at = if self.s.gap_key(at).is_some() { at } else { (0..=n).find(|x| self.s.gap_key(*x).is_some())? };
        Some(wo::Op { k: wo::K::InsGap, a: at as u16, b: 0, c: 0 })
    }
    fn step(s: Step, a: u16) -> wo::Op {
        let k = match s {
            Step::Remove => wo::K::Remove,
            Step::Invalidate => wo::K::Invalidate,
            Step::Clear => wo::K::Clear,
            Step::Compress => wo::K::Compress,
            Step::Reserve => wo::K::Reserve,
        };
        wo::Op { k, a, b: 0, c: 0 }
    }
}

impl<P: Px> Large for ws::SurjectWorld<P> {
    const SHAPES: u64 = 4;
    fn parts(op: &ws::Op) -> (u32, [u16; 3]) {
        (op.k as u32, [op.a, op.b, 0])
    }
    fn places(&self) -> Vec<u16> {
        self.s.b.live.keys().map(|x| *x as u16).collect()
    }
    fn ins(&self, shape: u64, i: usize) -> Option<ws::Op> {
        let (k, a) = match shape {
            // one set
            0 if !self.s.b.is_empty() => (ws::K::InsertKey, self.last() as u16),
            // one set, always from its first key
            1 if !self.s.b.is_empty() => (ws::K::InsertKey, *self.s.b.live.keys().next().unwrap() as u16),
            // sets of three
            2 if i % 3 != 0 && !self.s.b.is_empty() => (ws::K::InsertKey, self.last() as u16),
            _ => (ws::K::Insert, 0),
        };
        Some(ws::Op { k, a, b: 0 })
    }
    fn step(s: Step, a: u16) -> ws::Op {
        let k = match s {
            Step::Remove => ws::K::RemoveKey,
            Step::Invalidate => ws::K::Invalidate,
            Step::Clear => ws::K::Clear,
            Step::Compress => ws::K::Compress,
            Step::Reserve => ws::K::ReserveKeys,
        };
        ws::Op { k, a, b: 0 }
    }
}

const PATTERNS: u64 = 9;

fn insert<W: Large>(w: &mut W, cfg: &W::Cfg, shape: u64, n: usize) -> R {
    for i in 0..n {
        if let Some(op) = w.ins(shape, i) {
            w.apply(cfg, op)?;
        }
    }
    Ok(())
}

/// Elements are named by their places among those there are when it begins; removals do not change the
/// names of the others except in ordered arenas, where they are done from the end
fn each<W: Large>(w: &mut W, cfg: &W::Cfg, s: fn(u16) -> W::Op, pick: impl Fn(usize, usize) -> bool) -> R {
    let p = w.places();
    for (i, a) in p.iter().enumerate().rev() {
        if pick(i, p.len()) {
            w.apply(cfg, s(*a))?;
        }
    }
    Ok(())
}

fn build<W: Large>(w: &mut W, cfg: &W::Cfg, shape: u64, pattern: u64, n: usize) -> R {
    let rem: fn(u16) -> W::Op = |a| W::step(Step::Remove, a);
    let inv: fn(u16) -> W::Op = |a| W::step(Step::Invalidate, a);
    match pattern {
        0 => insert(w, cfg, shape, n),
        1 => {
            insert(w, cfg, shape, n)?;
            each(w, cfg, rem, |i, _| i % 2 == 1)
        }
        2 => {
            insert(w, cfg, shape, n)?;
            each(w, cfg, rem, |i, _| i % 3 == 0)?;
            insert(w, cfg, shape, n / 6)
        }
        3 => {
            insert(w, cfg, shape, n)?;
            each(w, cfg, inv, |i, _| i % 2 == 0)?;
            each(w, cfg, rem, |i, n| i < n / 2)
        }
        4 => {
            w.apply(cfg, W::step(Step::Reserve, n as u16))?;
            insert(w, cfg, shape, n / 2)
        }
        5 => {
            insert(w, cfg, shape, n)?;
            w.apply(cfg, W::step(Step::Clear, 0))?;
            insert(w, cfg, shape, n / 2)
        }
        6 => {
            insert(w, cfg, shape, n)?;
            each(w, cfg, rem, |i, n| i >= n / 2)?;
            w.apply(cfg, W::step(Step::Compress, 0))?;
            insert(w, cfg, shape, 1)
        }
        7 => {
            insert(w, cfg, shape, n)?;
            each(w, cfg, rem, |i, n| i + 1 < n)
        }
        _ => {
            // exactly full
            w.apply(cfg, W::step(Step::Reserve, n as u16))?;
            insert(w, cfg, shape, n)
        }
    }
}

/// First, second, middle and last ones
fn ends(mut v: Vec<u16>) -> Vec<u16> {
    v.sort();
    v.dedup();
    let n = v.len();
    if n <= 5 {
        return v;
    }
    vec![v[0], v[1], v[n / 2], v[n - 2], v[n - 1]]
}

/// All kinds of operations, each at a few places
fn choose<W: Large>(w: &W, cfg: &W::Cfg) -> Vec<W::Op> {
    let mut ops = vec![];
    w.ops(cfg, &mut ops);
    let mut kinds: Vec<u32> = ops.iter().map(|o| W::parts(o).0).collect();
    kinds.sort();
    kinds.dedup();
    let mut out = vec![];
    for k in kinds {
        let of: Vec<(W::Op, [u16; 3])> = ops.iter().filter(|o| W::parts(o).0 == k).map(|o| (*o, W::parts(o).1)).collect();
        let sel: Vec<Vec<u16>> = (0..3).map(|f| ends(of.iter().map(|x| x.1[f]).collect())).collect();
        out.extend(of.iter().filter(|x| (0..3).all(|f| sel[f].contains(&x.1[f]))).map(|x| x.0));
    }
    out
}

/// Around the powers of two
pub fn sizes(c: &Ctx) -> Vec<usize> {
    c.q(vec![9, 15, 16, 17, 32, 33, 64, 65, 129, 257], (9..=40).chain([48, 63, 64, 65, 96, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1025]).collect())
}

/// `prep` is done between building and the operation, in each of its variants
pub fn large<W: Large + 'static>(
    c: &mut Ctx,
    name: &str,
    cfg: fn(usize) -> W::Cfg,
    sizes: Vec<usize>,
    variants: u64,
    prep: fn(&mut W, &W::Cfg, u64) -> R,
) {
    let per = PATTERNS * W::SHAPES * variants;
    let dec = move |x: u64, s: &[usize]| (s[(x / per) as usize], x % PATTERNS, x / PATTERNS % W::SHAPES, x / PATTERNS / W::SHAPES % variants);
    let s2 = sizes.clone();
    c.enumerate(
        name,
        per * sizes.len() as u64,
        move |x| {
            let (n, p, s, v) = dec(x, &s2);
            format!("{n} elements in pattern {p} of shape {s}, variant {v}, then every kind of operation")
        },
        move |x| {
            let (n, p, s, v) = dec(x, &sizes);
            let cf = cfg(n);
            let start = |w: &mut W| -> R {
                build(w, &cf, s, p, n)?;
                prep(w, &cf, v)
            };
            let mut ops = vec![];
            play::<W>(&cf, |w| {
                start(w)?;
                ops = choose(w, &cf);
                Ok(())
            })?;
            for op in ops {
                play::<W>(&cf, |w| {
                    start(w)?;
                    w.apply(&cf, op)?;
                    w.observe(&cf)?;
                    insert(w, &cf, s, 3)
                })
                .map_err(|e| format!("{op:?}: {e}"))?;
            }
            Ok(true)
        },
    );
}
