//! The plain arena against a map from pointers to elements.

use crate::book::Book;
use crate::engine::*;
use crate::px::*;
use crate::tv::Tv;
use crate::{ensure, same};
use std::fmt;
use triple_arena::{Advancer, Arena};

#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(C)]
pub struct Op {
    pub k: K,
    pub a: u16,
    pub b: u16,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u16)]
pub enum K {
    Insert,
    InsertWith,
    TryInsert,
    TryInsertWith,
    Remove,
    Invalidate,
    ReplaceKeep,
    ReplaceUpd,
    Swap,
    Get2,
    GetMut,
    RemoveBy,
    Clear,
    ClearShrink,
    Compress,
    CompressWith,
    CompressRecaster,
    Reserve,
    Drain,
    FromIter,
    Clone,
    CloneKeep,
    ShadowFrom,
    ShadowFromWith,
    SwapShadow,
    DropShadow,
    AdvStart,
    AdvStep,
    Reload,
}

impl fmt::Debug for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}({},{})", self.k, self.a, self.b)
    }
}

/// Which groups of operations are in the alphabet
pub const G_BASE: u32 = 1;
pub const G_TRY: u32 = 2;
pub const G_REPL: u32 = 4;
pub const G_SWAP: u32 = 8;
pub const G_BULK: u32 = 16;
pub const G_SHRINK: u32 = 32;
pub const G_RESERVE: u32 = 64;
pub const G_DRAIN: u32 = 128;
pub const G_CLONE: u32 = 256;
pub const G_SHADOW: u32 = 512;
pub const G_ADV: u32 = 1024;
pub const G_RELOAD: u32 = 1 << 20;

pub struct Cfg {
    pub groups: u32,
    pub max_cap: usize,
    pub ages: bool,
    /// full observation (pointer grids and all iterators) or the short one
    pub full: bool,
}

type T = Tv<0>;

pub struct Side<P: Px> {
    pub a: Arena<P, T>,
    pub b: Book<u32>,
}

pub struct ArenaWorld<P: Px> {
    pub s: Side<P>,
    pub shadow: Option<Side<P>>,
    next: u32,
    adv: Option<Adv<P>>,
}

struct Adv<P: Px> {
    adv: triple_arena::arena_iterators::PtrAdvancer<P, T>,
    seen: Vec<Raw>,
    must: Vec<Raw>,
    done: bool,
}

fn sorted<X: Ord>(mut v: Vec<X>) -> Vec<X> {
    v.sort();
    v
}

impl<P: Px> Side<P> {
    fn observe(&mut self, full: bool) -> R {
        let (a, b) = (&mut self.a, &self.b);
        same!(a.len(), b.len(), "len()");
        same!(a.is_empty(), b.is_empty(), "is_empty()");
        same!(a.capacity(), b.cap, "capacity()");
        same!(P::rawgen(a.generation()), b.gen, "generation()");
        for (i, (g, id)) in &b.live {
            let p = P::mk((*i, *g));
            ensure!(a.contains(p), "contains({p:?}) is false for a live element");
            same!(a.get(p).map(|t| t.id()), Some(*id), "get({p:?})");
            same!(a.get_mut(p).map(|t| t.id()), Some(*id), "get_mut({p:?})");
            same!(a[p].id(), *id, "index {p:?}");
            same!(a[&p].id(), *id, "index &{p:?}");
        }
        ensure!(!a.contains(P::invalid()) && a.get(P::invalid()).is_none(), "Ptr::invalid() is accepted");
        if !full {
            return Ok(());
        }
        let pairs: Vec<(Raw, u32)> = b.live.iter().map(|(i, (g, id))| ((*i, *g), *id)).collect();
        let ids = sorted(pairs.iter().map(|x| x.1).collect::<Vec<_>>());
        same!(sorted(a.ptrs().map(|p| p.raw()).collect()), b.ptrs(), "ptrs()");
        same!(sorted(a.vals().map(|t| t.id()).collect()), ids, "vals()");
        same!(sorted(a.vals_mut().map(|t| t.id()).collect()), ids, "vals_mut()");
        same!(sorted(a.iter().map(|(p, t)| (p.raw(), t.id())).collect()), pairs, "iter()");
        same!(sorted(a.iter_mut().map(|(p, t)| (p.raw(), t.id())).collect()), pairs, "iter_mut()");
        same!(sorted((&*a).into_iter().map(|(p, t)| (p.raw(), t.id())).collect()), pairs, "into_iter() of a reference");
        same!(
            sorted((&mut *a).into_iter().map(|(p, t)| (p.raw(), t.id())).collect()),
            pairs,
            "into_iter() of a mutable reference"
        );
        {
            // references of a mutable iteration held together must be distinct
            let v: Vec<&mut T> = a.vals_mut().collect();
            let mut ad: Vec<*const T> = v.iter().map(|t| &**t as *const T).collect();
            ad.sort();
            ad.dedup();
            same!(ad.len(), b.len(), "number of distinct elements reached by vals_mut()");
        }
        // everything invalid is refused by everything, without effect
        let bad = b.invalid_ptrs(P::max_inx());
        let some_live = b.live.keys().next().map(|i| P::mk(b.raw(*i)));
        for r in bad {
            let p = P::mk(r);
            ensure!(!a.contains(p), "contains({p:?}) is true for an invalid pointer");
            ensure!(a.get(p).is_none(), "get({p:?}) reaches an element through an invalid pointer");
            ensure!(a.get_mut(p).is_none(), "get_mut({p:?}) reaches an element through an invalid pointer");
            ensure!(a.remove(p).is_none(), "remove({p:?}) removed an element through an invalid pointer");
            ensure!(a.invalidate(p).is_none(), "invalidate({p:?}) accepted an invalid pointer");
            match a.replace_and_keep_gen(p, T::new(9_000_001)) {
                Ok(_) => return Err(format!("replace_and_keep_gen({p:?}) accepted an invalid pointer")),
                Err(t) => same!(t.id(), 9_000_001, "returned argument"),
            }
            match a.replace_and_update_gen(p, T::new(9_000_002)) {
                Ok(_) => return Err(format!("replace_and_update_gen({p:?}) accepted an invalid pointer")),
                Err(t) => same!(t.id(), 9_000_002, "returned argument"),
            }
            ensure!(a.swap(p, p).is_none(), "swap({p:?}, {p:?}) accepted an invalid pointer");
            ensure!(a.get2_mut(p, p).is_none(), "get2_mut({p:?}, {p:?}) accepted an invalid pointer");
            if let Some(q) = some_live {
                ensure!(a.swap(p, q).is_none(), "swap({p:?}, {q:?}) accepted an invalid pointer");
                ensure!(a.swap(q, p).is_none(), "swap({q:?}, {p:?}) accepted an invalid pointer");
                ensure!(a.get2_mut(p, q).is_none(), "get2_mut({p:?}, {q:?}) accepted an invalid pointer");
                ensure!(a.get2_mut(q, p).is_none(), "get2_mut({q:?}, {p:?}) accepted an invalid pointer");
            }
        }
        let i = P::invalid();
        ensure!(
            a.remove(i).is_none() && a.invalidate(i).is_none() && a.swap(i, i).is_none() && a.get2_mut(i, i).is_none(),
            "Ptr::invalid() is accepted"
        );
        same!(P::rawgen(a.generation()), b.gen, "generation() after refused operations");
        same!(a.len(), b.len(), "len() after refused operations");
        same!(a.capacity(), b.cap, "capacity() after refused operations");
        same!(sorted(a.iter().map(|(p, t)| (p.raw(), t.id())).collect()), pairs, "iter() after refused operations");
        for x in &b.live {
            let p = P::mk((*x.0, x.1 .0));
            ensure!(a.get2_mut(p, p).is_none(), "get2_mut of a pointer with itself");
        }
        Arena::_check_invariants(a).map_err(|e| format!("internal invariants: {e}"))?;
        Ok(())
    }

    /// Adopts the capacity after an operation that may grow it
    fn grown(&mut self, min: usize) -> R {
        let c = self.a.capacity();
        ensure!(c >= self.b.cap && c >= min, "capacity() fell from {} to {c} or is below the needed {min}", self.b.cap);
        self.b.cap = c;
        Ok(())
    }

    /// Adopts a generation that must have grown by at least / at most this
    fn gen_between(&mut self, lo: u64, hi: u64) -> R {
        let g = P::rawgen(self.a.generation());
        if self.b.has_gen {
            ensure!(
                g >= self.b.gen + lo && g <= self.b.gen + hi,
                "generation() went from {} to {g}, expected an increase of {lo}..={hi}",
                self.b.gen
            );
            self.b.gen = g;
        }
        Ok(())
    }

    fn whole_op(&self) -> u64 {
        // a whole-arena invalidation on nothing may or may not count
        if self.b.is_empty() {
            0
        } else {
            1
        }
    }

    /// Fills all spare capacity; the order of the slots taken is part of the state
    fn fill(&mut self, k: &mut KeyHash) -> R {
        let cap = self.b.cap;
        let mut n = 0;
        loop {
            let id = 8_000_000 + n as u32;
            match self.a.try_insert(T::new(id)) {
                Ok(p) => {
                    n += 1;
                    ensure!(n + self.b.len() <= cap + n, "impossible");
                    let r = p.raw();
                    ensure!(r.0 <= cap, "try_insert issued {p:?} beyond the capacity {cap}");
                    self.b.issue(r, id)?;
                    k.put(r.0 as u64);
                }
                Err(t) => {
                    same!(t.id(), id, "argument returned by try_insert");
                    break;
                }
            }
            ensure!(n <= cap, "try_insert succeeds more often than there is spare capacity");
        }
        k.put(3 << 40);
        same!(self.b.len(), cap, "number of elements when try_insert fails (capacity {cap})");
        same!(self.a.capacity(), cap, "capacity() after try_insert");
        same!(self.a.len(), cap, "len() after filling");
        for (i, (g, id)) in &self.b.live {
            same!(self.a.get(P::mk((*i, *g))).map(|t| t.id()), Some(*id), "get after filling");
        }
        Ok(())
    }
}

impl<P: Px> ArenaWorld<P> {
    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next
    }

    fn adv_step(adv: &mut Adv<P>, s: &Side<P>) -> R<bool> {
        match adv.adv.advance(&s.a) {
            None => {
                for m in &adv.must {
                    ensure!(
                        adv.seen.contains(m),
                        "the advancer ended without returning {m:?}, valid since it began (returned {:?})",
                        adv.seen
                    );
                }
                adv.done = true;
                Ok(false)
            }
            Some(p) => {
                let r = p.raw();
                ensure!(s.b.valid(r), "the advancer returned {p:?}, which is not valid");
                if s.b.has_gen {
                    ensure!(!adv.seen.contains(&r), "the advancer returned {p:?} twice");
                }
                adv.seen.push(r);
                Ok(true)
            }
        }
    }
}

impl<P: Px> World for ArenaWorld<P> {
    type Op = Op;
    type Cfg = Cfg;

    fn new(_: &Cfg) -> Self {
        ArenaWorld { s: Side { a: Arena::new(), b: Book::new::<P>() }, shadow: None, next: 0, adv: None }
    }

    fn ops(&self, cfg: &Cfg, out: &mut Vec<Op>) {
        let g = cfg.groups;
        let b = &self.s.b;
        let live: Vec<u16> = b.live.keys().map(|x| *x as u16).collect();
        let mut op = |k, a: u16, bb: u16| out.push(Op { k, a, b: bb });
        // the doubling of a full arena must stay within bounds
        let can_grow = b.len() < b.cap || b.cap * 2 <= cfg.max_cap && b.cap < cfg.max_cap;
        if can_grow {
            op(K::Insert, 0, 0);
            op(K::InsertWith, 0, 0);
        }
        if g & G_TRY != 0 {
            op(K::TryInsert, 0, 0);
            op(K::TryInsertWith, 0, 0);
        }
        for i in &live {
            op(K::Remove, *i, 0);
        }
        if g & G_BASE != 0 {
            for i in &live {
                op(K::Invalidate, *i, 0);
            }
        }
        if g & G_REPL != 0 {
            for i in &live {
                op(K::ReplaceKeep, *i, 0);
                op(K::ReplaceUpd, *i, 0);
                op(K::GetMut, *i, 0);
            }
        }
        if g & G_SWAP != 0 {
            for i in &live {
                for j in &live {
                    op(K::Swap, *i, *j);
                    if i != j {
                        op(K::Get2, *i, *j);
                    }
                }
            }
        }
        if g & G_BULK != 0 {
            op(K::Clear, 0, 0);
            if b.len() <= 5 {
                for m in 0..(1u16 << b.len()) {
                    op(K::RemoveBy, m, 0);
                }
            } else {
                for m in [0x00u16, 0xff, 0x55, 0x2c, 0x81] {
                    op(K::RemoveBy, m, 0);
                }
            }
        }
        if g & G_SHRINK != 0 {
            op(K::ClearShrink, 0, 0);
            op(K::Compress, 0, 0);
            op(K::CompressWith, 0, 0);
            op(K::CompressRecaster, 0, 0);
        }
        if g & G_RESERVE != 0 {
            for r in 0..=3u16 {
                if b.cap + r as usize <= cfg.max_cap {
                    op(K::Reserve, r, 0);
                }
            }
        }
        if g & G_DRAIN != 0 {
            for k in 0..=b.len() as u16 + 1 {
                op(K::Drain, k, 0);
            }
            if b.len().next_power_of_two() <= cfg.max_cap {
                op(K::FromIter, 0, 0);
            }
        }
        if g & G_CLONE != 0 {
            op(K::Clone, 0, 0);
        }
        if g & G_RELOAD != 0 {
            op(K::Reload, 0, 0);
            op(K::Reload, 1, 0);
        }
        if g & G_SHADOW != 0 {
            op(K::CloneKeep, 0, 0);
            if self.shadow.is_some() {
                op(K::ShadowFrom, 0, 0);
                op(K::ShadowFromWith, 0, 0);
                op(K::SwapShadow, 0, 0);
                op(K::DropShadow, 0, 0);
            }
        }
        if g & G_ADV != 0 {
            match &self.adv {
                None => op(K::AdvStart, 0, 0),
                Some(a) if !a.done => op(K::AdvStep, 0, 0),
                _ => (),
            }
        }
    }

    fn apply(&mut self, _cfg: &Cfg, op: Op) -> R {
        let i = op.a as usize;
        let id = self.fresh();
        let s = &mut self.s;
        match op.k {
            K::Insert => {
                let full = s.b.len() == s.b.cap;
                let p = s.a.insert(T::new(id));
                if full {
                    s.grown(s.b.len() + 1)?;
                }
                s.b.issue(p.raw(), id)?;
            }
            K::InsertWith => {
                let full = s.b.len() == s.b.cap;
                let mut given = None;
                let p = s.a.insert_with(|p| {
                    given = Some(p);
                    T::new(id)
                });
                same!(given, Some(p), "pointer given to the creation function");
                if full {
                    s.grown(s.b.len() + 1)?;
                }
                s.b.issue(p.raw(), id)?;
            }
            K::TryInsert => {
                let full = s.b.len() == s.b.cap;
                match s.a.try_insert(T::new(id)) {
                    Ok(p) => {
                        ensure!(!full, "try_insert succeeded in a full arena");
                        s.b.issue(p.raw(), id)?;
                    }
                    Err(t) => {
                        ensure!(full, "try_insert failed with {} of {} used", s.b.len(), s.b.cap);
                        same!(t.id(), id, "returned argument");
                    }
                }
            }
            K::TryInsertWith => {
                let full = s.b.len() == s.b.cap;
                let mut given = None;
                let r = s.a.try_insert_with(|p| {
                    given = Some(p);
                    T::new(id)
                });
                match r {
                    Ok(p) => {
                        ensure!(!full, "try_insert_with succeeded in a full arena");
                        same!(given, Some(p), "pointer given to the creation function");
                        s.b.issue(p.raw(), id)?;
                    }
                    Err(f) => {
                        ensure!(full, "try_insert_with failed with {} of {} used", s.b.len(), s.b.cap);
                        let t = f(P::invalid());
                        same!(t.id(), id, "returned function");
                        same!(given, Some(P::invalid()), "the creation function was called although it was returned");
                    }
                }
            }
            K::Remove => {
                let p = P::mk(s.b.raw(i));
                let t = s.a.remove(p);
                let (_, e) = s.b.live.remove(&i).unwrap();
                same!(t.as_ref().map(|t| t.id()), Some(e), "remove({p:?})");
                s.b.inc();
            }
            K::Invalidate => {
                let p = P::mk(s.b.raw(i));
                let q = s.a.invalidate(p).ok_or_else(|| format!("invalidate({p:?}) refused a valid pointer"))?;
                s.b.inc();
                s.b.reissue(i, q.raw())?;
            }
            K::ReplaceKeep => {
                let p = P::mk(s.b.raw(i));
                match s.a.replace_and_keep_gen(p, T::new(id)) {
                    Ok(t) => {
                        let e = s.b.live.get_mut(&i).unwrap();
                        same!(t.id(), e.1, "old element returned by replace_and_keep_gen");
                        e.1 = id;
                    }
                    Err(_) => return Err(format!("replace_and_keep_gen({p:?}) refused a valid pointer")),
                }
            }
            K::ReplaceUpd => {
                let p = P::mk(s.b.raw(i));
                match s.a.replace_and_update_gen(p, T::new(id)) {
                    Ok((t, q)) => {
                        s.b.inc();
                        let e = s.b.live.get_mut(&i).unwrap();
                        same!(t.id(), e.1, "old element returned by replace_and_update_gen");
                        e.1 = id;
                        s.b.reissue(i, q.raw())?;
                    }
                    Err(_) => return Err(format!("replace_and_update_gen({p:?}) refused a valid pointer")),
                }
            }
            K::GetMut => {
                let p = P::mk(s.b.raw(i));
                s.a.get_mut(p).ok_or("get_mut refused a valid pointer")?.id = id;
                same!(s.a[p].id(), id, "element after writing through get_mut");
                s.a[p].id = id + 100_000;
                s.b.live.get_mut(&i).unwrap().1 = id + 100_000;
            }
            K::Swap => {
                let j = op.b as usize;
                let (p, q) = (P::mk(s.b.raw(i)), P::mk(s.b.raw(j)));
                same!(s.a.swap(p, q), Some(()), "swap({p:?}, {q:?})");
                let (x, y) = (s.b.live[&i].1, s.b.live[&j].1);
                s.b.live.get_mut(&i).unwrap().1 = y;
                s.b.live.get_mut(&j).unwrap().1 = x;
            }
            K::Get2 => {
                let j = op.b as usize;
                let (p, q) = (P::mk(s.b.raw(i)), P::mk(s.b.raw(j)));
                let (x, y) = s.a.get2_mut(p, q).ok_or("get2_mut refused two valid pointers")?;
                same!(x.id(), s.b.live[&i].1, "first of get2_mut");
                same!(y.id(), s.b.live[&j].1, "second of get2_mut");
                x.id = id;
                y.id = id + 100_000;
                s.b.live.get_mut(&i).unwrap().1 = id;
                s.b.live.get_mut(&j).unwrap().1 = id + 100_000;
            }
            K::RemoveBy => {
                let sel: Vec<(Raw, bool)> =
                    s.b.ptrs().into_iter().enumerate().map(|(n, r)| (r, op.a >> (n % 8) & 1 == 1)).collect();
                let mut seen = vec![];
                let mut bad = None;
                s.a.remove_by(|p, t| {
                    let r = p.raw();
                    seen.push((r, t.id()));
                    match sel.iter().find(|x| x.0 == r) {
                        None => {
                            bad = Some(p);
                            false
                        }
                        Some(x) => {
                            t.id += 1_000;
                            x.1
                        }
                    }
                });
                ensure!(bad.is_none(), "remove_by gave the predicate {bad:?}, which is not valid");
                let want: Vec<(Raw, u32)> = s.b.live.iter().map(|(i, (g, e))| ((*i, *g), *e)).collect();
                same!(sorted(seen), want, "elements given to the predicate of remove_by");
                let any = sel.iter().any(|x| x.1);
                for (r, rm) in sel {
                    if rm {
                        s.b.live.remove(&r.0);
                    } else {
                        s.b.live.get_mut(&r.0).unwrap().1 += 1_000;
                    }
                }
                s.gen_between(any as u64, 1)?;
            }
            K::Clear => {
                let w = s.whole_op();
                s.a.clear();
                s.b.live.clear();
                s.gen_between(w, 1)?;
            }
            K::ClearShrink => {
                let w = s.whole_op();
                s.a.clear_and_shrink();
                s.b.live.clear();
                s.b.cap = 0;
                s.gen_between(w, 1)?;
            }
            K::Compress | K::CompressWith | K::CompressRecaster => {
                let w = s.whole_op();
                let old = std::mem::take(&mut s.b.live);
                let mut map: Vec<(Raw, u32, Raw)> = vec![];
                match op.k {
                    K::Compress => s.a.compress_and_shrink(),
                    K::CompressWith => s.a.compress_and_shrink_with(|p, t, q| {
                        map.push((p.raw(), t.id(), q.raw()));
                        t.id += 1_000;
                    }),
                    _ => {
                        let r = s.a.compress_and_shrink_recaster();
                        for (p, q) in &r {
                            map.push((p.raw(), 0, q.raw()));
                        }
                        // exactly the old pointers have an image
                        same!(
                            sorted(map.iter().map(|x| x.0).collect::<Vec<_>>()),
                            old.iter().map(|(i, (g, _))| (*i, *g)).collect::<Vec<_>>(),
                            "pointers with an image in the recaster"
                        );
                    }
                }
                s.b.cap = old.len();
                s.gen_between(w, 1)?;
                same!(s.a.capacity(), old.len(), "capacity() after compression");
                if op.k == K::Compress {
                    // pair old and new by element
                    for (i, (g, e)) in &old {
                        let q = s.a.iter().find(|(_, t)| t.id() == *e).map(|x| x.0);
                        let q = q.ok_or_else(|| format!("compression lost element {e}"))?;
                        map.push(((*i, *g), *e, q.raw()));
                    }
                }
                same!(map.len(), old.len(), "number of moved elements reported by compression");
                for (p, e, q) in map {
                    let Some((g, oe)) = old.get(&p.0) else {
                        return Err(format!("compression reported {p:?}, which was not valid"));
                    };
                    same!(p.1, *g, "generation of the old pointer reported by compression");
                    if op.k != K::CompressRecaster {
                        same!(e, *oe, "element reported by compression for {p:?}");
                    }
                    let ne = if op.k == K::CompressWith { oe + 1_000 } else { *oe };
                    s.b.issue(q, ne)?;
                }
            }
            K::Reserve => {
                let n = op.a as usize;
                s.a.reserve(n);
                s.grown(s.b.len() + n)?;
            }
            K::Drain => {
                let old = std::mem::take(&mut s.b.live);
                let mut got = vec![];
                {
                    let mut d = s.a.drain();
                    for _ in 0..op.a {
                        match d.next() {
                            Some((p, t)) => got.push((p.raw(), t.id())),
                            None => break,
                        }
                    }
                }
                same!(got.len(), old.len().min(i), "number of elements drained in {i} steps");
                let mut dup = got.clone();
                dup.sort();
                dup.dedup();
                same!(dup.len(), got.len(), "distinct elements drained");
                for (r, e) in got {
                    same!(old.get(&r.0), Some(&(r.1, e)), "drained {r:?}");
                }
                s.gen_between(if old.is_empty() { 0 } else { 1 }, old.len() as u64 + 2)?;
            }
            K::FromIter => {
                let a = std::mem::take(&mut s.a);
                let mut old = sorted(s.b.live.iter().map(|(_, (_, e))| *e).collect::<Vec<_>>());
                let a: Arena<P, T> = a.into_iter().map(|x| x.1).collect();
                s.b = Book::new::<P>();
                s.b.cap = a.capacity();
                ensure!(s.b.cap >= old.len(), "capacity of a collected arena is below its length");
                for (p, t) in &a {
                    let e = t.id();
                    let n = old.iter().position(|x| *x == e).ok_or("collecting made up an element")?;
                    old.remove(n);
                    s.b.issue(p.raw(), e)?;
                }
                ensure!(old.is_empty(), "collecting lost elements {old:?}");
                s.a = a;
                if s.b.has_gen {
                    same!(P::rawgen(s.a.generation()), 2, "generation() of a collected arena");
                }
            }
            K::Clone => {
                let c = s.a.clone();
                ensure!(
                    c.capacity() >= s.b.len() && c.capacity() <= s.b.cap,
                    "a clone has capacity {} (source: capacity {}, length {})",
                    c.capacity(),
                    s.b.cap,
                    s.b.len()
                );
                ensure!(c == s.a && s.a == c, "a clone is not equal to its source");
                s.b.cap = c.capacity();
                s.a = c;
            }
            K::Reload => {
                let n = crate::ser::reload(&s.a, op.a as usize)?;
                let old = std::mem::replace(&mut s.b, Book::new::<P>());
                for (i, (_, e)) in old.live {
                    s.b.issue((i, s.b.gen), e)?;
                }
                s.a = n;
                s.b.cap = s.a.capacity();
                self.adv = None;
            }
            K::CloneKeep => {
                let c = s.a.clone();
                let mut b = s.b.clone();
                ensure!(c.capacity() >= b.len() && c.capacity() <= b.cap, "a clone has capacity {}", c.capacity());
                b.cap = c.capacity();
                self.shadow = Some(Side { a: c, b });
            }
            K::ShadowFrom | K::ShadowFromWith => {
                let sh = self.shadow.as_mut().unwrap();
                let mut b = s.b.clone();
                if op.k == K::ShadowFrom {
                    sh.a.clone_from(&s.a);
                } else {
                    let mut seen = vec![];
                    sh.a.clone_from_with(&s.a, |p, t| {
                        seen.push((p.raw(), t.id()));
                        T::new(t.id() + 50_000)
                    });
                    let want: Vec<(Raw, u32)> = s.b.live.iter().map(|(i, (g, e))| ((*i, *g), *e)).collect();
                    same!(sorted(seen), want, "elements given to the mapping of clone_from_with");
                    for x in b.live.values_mut() {
                        x.1 += 50_000;
                    }
                }
                let c = sh.a.capacity();
                ensure!(
                    c >= b.len() && c <= s.b.cap.max(sh.b.cap),
                    "clone_from gave capacity {c}; source {}, target {}, length {}",
                    s.b.cap,
                    sh.b.cap,
                    b.len()
                );
                b.cap = c;
                sh.b = b;
            }
            K::SwapShadow => std::mem::swap(&mut self.s, self.shadow.as_mut().unwrap()),
            K::DropShadow => self.shadow = None,
            K::AdvStart => {
                self.adv = Some(Adv { adv: s.a.advancer(), seen: vec![], must: s.b.ptrs(), done: false });
            }
            K::AdvStep => {
                let mut adv = self.adv.take().unwrap();
                Self::adv_step(&mut adv, &self.s)?;
                self.adv = Some(adv);
            }
        }
        if let Some(adv) = &mut self.adv {
            let b = &self.s.b;
            adv.must.retain(|r| b.valid(*r));
            if matches!(op.k, K::SwapShadow | K::FromIter) {
                // another arena took the place of the one being walked
                self.adv = None;
            } else if !b.has_gen && !matches!(op.k, K::AdvStart | K::AdvStep) {
                // without generations a re-used slot looks continuously valid
                if matches!(
                    op.k,
                    K::Compress | K::CompressWith | K::CompressRecaster | K::Clear | K::ClearShrink | K::Drain
                ) {
                    adv.must.clear();
                }
            }
        }
        Ok(())
    }

    fn observe(&mut self, cfg: &Cfg) -> R {
        self.s.observe(cfg.full)?;
        if let Some(sh) = &mut self.shadow {
            sh.observe(cfg.full).map_err(|e| format!("(other arena) {e}"))?;
            let want = self.s.b.live.len() == sh.b.live.len()
                && self.s.b.live.iter().zip(sh.b.live.iter()).all(|(x, y)| x == y);
            same!(self.s.a == sh.a, want, "equality of two arenas");
            same!(sh.a == self.s.a, want, "equality of two arenas, the other way round");
        }
        let n = self.s.b.len() + self.shadow.as_ref().map(|s| s.b.len()).unwrap_or(0);
        crate::tv::check_live(n)
    }

    fn finish(mut self, cfg: &Cfg, key: &mut KeyHash) -> R {
        self.s.b.key(key, cfg.ages);
        if let Some(adv) = &mut self.adv {
            key.put(77);
            for r in &adv.seen {
                key.put(r.0 as u64);
                key.put(self.s.b.valid(*r) as u64);
            }
            key.put(78);
            for r in &adv.must {
                key.put(r.0 as u64);
            }
            key.put(adv.done as u64);
            if !adv.done {
                let mut n = 0;
                while Self::adv_step(adv, &self.s)? {
                    n += 1;
                    ensure!(n <= self.s.b.cap + 1, "the advancer does not end");
                }
            }
        }
        if cfg.full {
            // consume a copy, partly
            let c = self.s.a.clone();
            ensure!(c == self.s.a, "a clone is not equal to its source");
            let n = self.s.b.len();
            let k = (n + 1) / 2;
            let mut it = c.capacity_drain();
            let mut got = vec![];
            for _ in 0..k {
                match it.next() {
                    Some((p, t)) => got.push((p.raw(), t.id())),
                    None => break,
                }
            }
            same!(got.len(), k, "elements handed out by consuming iteration");
            for (r, e) in &got {
                same!(self.s.b.get(*r), Some(e), "element handed out by consuming iteration");
            }
            let mut d = got.clone();
            d.sort();
            d.dedup();
            same!(d.len(), got.len(), "distinct elements handed out by consuming iteration");
            if k == n {
                ensure!(it.next().is_none(), "consuming iteration yields too many elements");
            }
            drop(it);
        }
        self.s.fill(key)?;
        if let Some(sh) = &mut self.shadow {
            sh.b.key(key, cfg.ages);
            sh.fill(key)?;
        }
        let ArenaWorld { s, shadow, .. } = self;
        drop(s.a);
        if let Some(sh) = shadow {
            for (i, (g, id)) in &sh.b.live {
                same!(sh.a.get(P::mk((*i, *g))).map(|t| t.id()), Some(*id), "element of the other arena after a drop");
            }
        }
        Ok(())
    }
}
