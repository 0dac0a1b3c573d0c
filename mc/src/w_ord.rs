//! The ordered arena against a sorted list.

use crate::book::Book;
use crate::engine::*;
use crate::px::*;
use crate::tv::{self, Tv};
use crate::{ensure, same};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::fmt;
use triple_arena::{Advancer, Arena, ChainArena, OrdArena};

pub type V = Tv<0>;

/// A key: compares by `k` (or by script), has its own identity
#[derive(Clone)]
pub struct Kt {
    pub t: Tv<0>,
    pub k: u128,
}
impl Kt {
    pub fn new(k: u128, id: u32) -> Self {
        Kt { t: Tv::new(id), k }
    }
    fn see(&self) -> (u128, u32) {
        (self.k, self.t.id())
    }
}
impl fmt::Debug for Kt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:x}#{}", self.k, self.t.id)
    }
}

struct Script {
    /// base three digits, least significant first; then `rest` forever
    digits: u64,
    rest: Ordering,
    on: bool,
}
thread_local! {
    static SCRIPT: RefCell<Script> = const { RefCell::new(Script { digits: 0, rest: Ordering::Equal, on: false }) };
}
/// Comparisons answer by `digits` (0 less, 1 equal, 2 greater; ended by 3) and then `rest`
pub fn script(digits: u64, rest: Ordering) {
    SCRIPT.with(|s| *s.borrow_mut() = Script { digits, rest, on: true });
}
pub fn script_off() {
    SCRIPT.with(|s| s.borrow_mut().on = false);
}

impl PartialEq for Kt {
    fn eq(&self, o: &Self) -> bool {
        self.t.id();
        o.t.id();
        self.k == o.k
    }
}
impl Eq for Kt {}
impl PartialOrd for Kt {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Kt {
    fn cmp(&self, o: &Self) -> Ordering {
        tv::cmp_event();
        self.t.id();
        o.t.id();
        let scripted = SCRIPT.with(|s| {
            let mut s = s.borrow_mut();
            if !s.on {
                return None;
            }
            let d = s.digits & 3;
            if d == 3 {
                return Some(s.rest);
            }
            s.digits >>= 2;
            Some([Ordering::Less, Ordering::Equal, Ordering::Greater][d as usize])
        });
        scripted.unwrap_or_else(|| self.k.cmp(&o.k))
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(C)]
pub struct Op {
    pub k: K,
    pub a: u16,
    pub b: u16,
    pub c: u16,
}
impl fmt::Debug for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}({},{},{})", self.k, self.a, self.b, self.c)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u16)]
pub enum K {
    /// into the gap before position a
    InsGap,
    /// equal to the key at position a
    InsEq,
    NonGap,
    NonEq,
    /// linear: gap a (or, with the high bit of c, equal to position a), start position b (len: stale), step limit c
    LinGap,
    LinNon,
    /// at position a, before (0), replacing (1), after (2)
    Manual,
    InsertEmpty,
    /// comparison answers a (digit string), starting entry b (0 tree search, else position + 1)
    Scripted,
    ScriptedNon,
    Remove,
    Invalidate,
    ReplKeep,
    ReplUpd,
    GetMut,
    Swap,
    Get2,
    Clear,
    ClearShrink,
    Compress,
    CompressWith,
    CompressRecaster,
    Reserve,
    Drain,
    FromIter,
    Clone,
    CloneKeep,
    ShadowFrom,
    ShadowFromWith,
    SwapShadow,
    AdvStart,
    AdvFrom,
    AdvStep,
    Reload,
}

pub const G_INV: u32 = 1;
pub const G_REPL: u32 = 2;
pub const G_SWAP: u32 = 4;
pub const G_EQ: u32 = 8;
pub const G_NON: u32 = 16;
pub const G_LIN: u32 = 32;
pub const G_MANUAL: u32 = 64;
pub const G_BULK: u32 = 128;
pub const G_SHRINK: u32 = 256;
pub const G_RESERVE: u32 = 512;
pub const G_DRAIN: u32 = 1024;
pub const G_CLONE: u32 = 2048;
pub const G_SHADOW: u32 = 4096;
pub const G_ADV: u32 = 8192;
pub const G_REMOVE: u32 = 1 << 14;
pub const G_RELOAD: u32 = 1 << 20;
/// comparison answers are enumerated instead of given by the keys
pub const G_SCRIPT: u32 = 1 << 15;
/// no multiple insertion, but equal manual ones
pub const G_MANUAL_ANY: u32 = 1 << 16;

pub struct Cfg {
    pub groups: u32,
    pub max_cap: usize,
    pub max_len: usize,
    /// distinguish states by slots and free slots, not just by tree
    pub slots: bool,
    pub ages: bool,
    /// observe lookups with all invalid pointers
    pub inert: bool,
    /// observe all linear searches
    pub lin: bool,
    pub full: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub key: u128,
    pub kid: u32,
    pub vid: u32,
}

pub struct Side<P: Px> {
    pub a: OrdArena<P, Kt, V>,
    pub b: Book<Ent>,
    /// slots in order
    pub order: Vec<usize>,
}

struct Adv<P: Px> {
    adv: triple_arena::ord_iterators::PtrAdvancer<P, Kt, V>,
    seen: Vec<Raw>,
    must: Vec<Raw>,
    /// slot last returned, and those that must not be invalidated before the next step
    last: Option<u128>,
    hold: Vec<usize>,
    done: bool,
}

pub struct OrdWorld<P: Px> {
    pub s: Side<P>,
    shadow: Option<Side<P>>,
    next: u32,
    adv: Option<Adv<P>>,
    removed: bool,
}

fn sorted<X: Ord>(mut v: Vec<X>) -> Vec<X> {
    v.sort();
    v
}

/// Largest height that a rank balanced tree of `n` entries can have
pub fn max_height(n: usize) -> u64 {
    // least size by rank: 1, 2, then 1 + 2 * (two ranks below)
    let (mut a, mut b) = (1usize, 2usize);
    let mut r = 0;
    while a <= n {
        r += 1;
        let c = 1 + 2 * a;
        a = b;
        b = c;
    }
    r
}
/// The same if nothing was ever removed
pub fn max_height_insert_only(n: usize) -> u64 {
    let (mut a, mut b) = (1usize, 2usize);
    let mut r = 0;
    while a <= n {
        r += 1;
        let c = 1 + a + b;
        a = b;
        b = c;
    }
    r
}
pub fn ideal_height(n: usize) -> u64 {
    (usize::BITS - n.leading_zeros()) as u64
}

impl<P: Px> Side<P> {
    fn p(&self, pos: usize) -> P {
        P::mk(self.b.raw(self.order[pos]))
    }
    fn e(&self, pos: usize) -> &Ent {
        &self.b.live[&self.order[pos]].1
    }
    fn m(&mut self, pos: usize) -> &mut Ent {
        &mut self.b.live.get_mut(&self.order[pos]).unwrap().1
    }
    pub fn n(&self) -> usize {
        self.order.len()
    }
    pub fn list(&self) -> Vec<(Raw, (u128, u32), u32)> {
        self.order
            .iter()
            .map(|i| {
                let (g, e) = &self.b.live[i];
                ((*i, *g), (e.key, e.kid), e.vid)
            })
            .collect()
    }
    /// a key strictly inside the gap before position `i`
    pub fn gap_key(&self, i: usize) -> Option<u128> {
        let lo = if i == 0 { 0 } else { self.e(i - 1).key };
        let hi = if i == self.n() { u128::MAX } else { self.e(i).key };
        let k = lo + hi.saturating_sub(lo) / 2;
        (k > lo && k < hi).then_some(k)
    }

    fn search(&self, k: u128, scripted: bool) -> (Option<usize>, usize) {
        // position of the first equal one, position of the first not less
        let at = self.order.iter().position(|i| self.b.live[i].1.key >= k).unwrap_or(self.n());
        let eq = at < self.n() && self.e(at).key == k && !scripted;
        (eq.then_some(at), at)
    }

    fn check_similar(&self, what: &str, k: u128, got: Option<(P, Ordering)>) -> R {
        let (eq, at) = self.search(k, false);
        let Some((p, o)) = got else {
            ensure!(self.n() == 0, "{what} found nothing in a nonempty arena");
            return Ok(());
        };
        ensure!(self.b.valid(p.raw()), "{what} returned {p:?}, which is not valid");
        let pos = self.order.iter().position(|i| *i == p.raw().0).unwrap();
        if eq.is_some() {
            ensure!(o == Ordering::Equal && self.e(pos).key == k, "{what} for a present key returned ({p:?}, {o:?})");
        } else {
            match o {
                Ordering::Equal => return Err(format!("{what} claims an equal key at {p:?} which is not there")),
                Ordering::Less => same!(pos, at, "{what}: position of the entry the key is less than"),
                Ordering::Greater => same!(pos + 1, at, "{what}: position after the entry the key is greater than"),
            }
        }
        Ok(())
    }
    fn check_found(&self, what: &str, k: u128, got: Option<P>) -> R {
        let (eq, _) = self.search(k, false);
        match (got, eq) {
            (None, None) => Ok(()),
            (None, Some(at)) => Err(format!("{what} did not find the key of position {at}")),
            (Some(p), _) => {
                ensure!(self.b.valid(p.raw()), "{what} returned {p:?}, which is not valid");
                same!(self.b.get(p.raw()).unwrap().key, k, "{what}: key of the entry found at {p:?}");
                Ok(())
            }
        }
    }

    /// Every search for every present key and every gap; `limit` is the largest permitted number of steps
    fn searches(&self, limit: u64, lin: bool) -> R {
        let n = self.n();
        let mut keys: Vec<u128> = self.order.iter().map(|i| self.b.live[i].1.key).collect();
        keys.dedup();
        keys.extend((0..=n).filter_map(|i| self.gap_key(i)));
        let stale: Vec<P> = self.b.stale_few().into_iter().take(3).chain([(P::invalid()).raw()]).map(P::mk).collect();
        for k in keys {
            let q = Kt::new(k, 7);
            tv::cmp_reset();
            let r = self.a.find_key(&q);
            let steps = tv::cmp_count();
            self.check_found("find_key", k, r)?;
            ensure!(steps <= limit, "find_key looked at {steps} of {n} entries, at most {limit} are permitted");
            tv::cmp_reset();
            let r = self.a.find_similar_key(&q);
            let steps = tv::cmp_count();
            self.check_similar("find_similar_key", k, r)?;
            ensure!(steps <= limit, "find_similar_key looked at {steps} of {n} entries, at most {limit} are permitted");
            let mut bad = None;
            let mut steps = 0;
            let mut f = |p: P, kk: &Kt, v: &V| {
                steps += 1;
                match self.b.get(p.raw()) {
                    Some(e) if (e.key, e.kid, e.vid) == (kk.k, kk.t.id(), v.id()) => (),
                    _ => bad = Some(p),
                }
                k.cmp(&kk.k)
            };
            let r = self.a.find_with(&mut f);
            let r2 = self.a.find_similar_with(&mut f);
            ensure!(bad.is_none(), "a search function was given {bad:?} with the wrong entry");
            ensure!(steps <= 2 * limit, "two searches with a function looked at {steps} of {n} entries");
            self.check_found("find_with", k, r)?;
            self.check_similar("find_similar_with", k, r2)?;
            if lin {
                for num in [0, 1, 2, n / 2, n, n + 1, usize::MAX] {
                    for p in (0..n).map(|i| self.p(i)).chain(stale.iter().cloned()) {
                        let r = self.a.find_key_linear(p, num, &q);
                        self.check_found(&format!("find_key_linear from {p:?} limit {num}"), k, r)?;
                        let r = self.a.find_similar_key_linear(p, num, &q);
                        self.check_similar(&format!("find_similar_key_linear from {p:?} limit {num}"), k, r)?;
                    }
                }
            }
        }
        // functions that are not about keys
        let ends = [
            self.a.find_similar_with(|_, _, _| Ordering::Less),
            self.a.find_similar_with(|_, _, _| Ordering::Greater),
        ];
        let first = (n > 0).then(|| (self.p(0), Ordering::Less));
        let last = (n > 0).then(|| (self.p(n - 1), Ordering::Greater));
        same!(ends, [first, last], "find_similar_with always less, always greater");
        ensure!(self.a.find_with(|_, _, _| Ordering::Less).is_none(), "find_with always less found something");
        ensure!(self.a.find_with(|_, _, _| Ordering::Greater).is_none(), "find_with always greater found something");
        same!(self.a.find_with(|_, _, _| Ordering::Equal).is_some(), n > 0, "find_with always equal");
        Ok(())
    }

    fn observe(&mut self, cfg: &Cfg, limit: u64) -> R {
        let n = self.n();
        let scripted = cfg.groups & (G_SCRIPT | G_MANUAL_ANY) != 0;
        same!(self.a.len(), n, "len()");
        same!(self.a.is_empty(), n == 0, "is_empty()");
        same!(self.a.capacity(), self.b.cap, "capacity()");
        same!(P::rawgen(self.a.generation()), self.b.gen, "generation()");
        let list = self.list();
        for (i, (r, k, v)) in list.iter().enumerate() {
            let p = P::mk(*r);
            ensure!(self.a.contains(p), "contains({p:?}) is false for a live entry");
            same!(self.a.get(p).map(|x| (x.0.see(), x.1.id())), Some((*k, *v)), "get({p:?})");
            same!(self.a.get_key(p).map(|x| x.see()), Some(*k), "get_key({p:?})");
            same!(self.a.get_val(p).map(|x| x.id()), Some(*v), "get_val({p:?})");
            same!(self.a[p].id(), *v, "index {p:?}");
            let prev = (i > 0).then(|| list[i - 1].0);
            let next = list.get(i + 1).map(|x| x.0);
            let l = self.a.get_link(p).map(|l| (l.prev().map(|p| p.raw()), l.next().map(|p| p.raw()), l.t.0.see(), l.t.1.id()));
            same!(l, Some((prev, next, *k, *v)), "get_link({p:?})");
        }
        same!(self.a.first().map(|p| p.raw()), list.first().map(|x| x.0), "first()");
        same!(self.a.last().map(|p| p.raw()), list.last().map(|x| x.0), "last()");
        let got: Vec<(Raw, (u128, u32), u32)> = self.a.iter().map(|(p, k, v)| (p.raw(), k.see(), v.id())).collect();
        same!(got, list, "iter()");
        if scripted {
            script(3, Ordering::Equal);
        }
        OrdArena::_check_invariants(&self.a).map_err(|e| format!("internal invariants: {e}"))?;
        script_off();
        if !scripted {
            self.searches(limit, cfg.lin)?;
        } else {
            // any search ends within the permitted number of steps, whatever the answers
            let h = self.height();
            ensure!(h <= limit, "the tree has {h} levels for {n} entries, at most {limit} are permitted");
            for d in 0..3u64.pow(limit.min(5) as u32) {
                let mut x = 3 << (2 * limit.min(5));
                let mut dd = d;
                for i in 0..limit.min(5) {
                    x |= (dd % 3) << (2 * i);
                    dd /= 3;
                }
                let q = Kt::new(1, 7);
                for rest in [Ordering::Less, Ordering::Greater] {
                    script(x, rest);
                    tv::cmp_reset();
                    let r = self.a.find_similar_key(&q);
                    ensure!(tv::cmp_count() <= limit, "a search made {} comparisons among {n} entries", tv::cmp_count());
                    if let Some((p, _)) = r {
                        ensure!(self.b.valid(p.raw()), "a search returned {p:?}, which is not valid");
                    } else {
                        ensure!(n == 0, "find_similar_key found nothing in a nonempty arena");
                    }
                    script(x, rest);
                    if let Some(p) = self.a.find_key(&q) {
                        ensure!(self.b.valid(p.raw()), "a search returned {p:?}, which is not valid");
                    }
                    if cfg.lin {
                        for i in 0..n {
                            for num in [1, n, usize::MAX] {
                                script(x, rest);
                                tv::cmp_reset();
                                let r = self.a.find_similar_key_linear(self.p(i), num, &q);
                                let ok = r.map(|r| self.b.valid(r.0.raw()));
                                same!(ok, Some(true), "validity of what a linear search returned");
                                script(x, rest);
                                if let Some(p) = self.a.find_key_linear(self.p(i), num, &q) {
                                    ensure!(self.b.valid(p.raw()), "a search returned {p:?}, which is not valid");
                                }
                            }
                        }
                    }
                }
            }
            script_off();
        }
        if !cfg.full {
            return Ok(());
        }
        same!(self.a.ptrs().map(|p| p.raw()).collect::<Vec<_>>(), list.iter().map(|x| x.0).collect::<Vec<_>>(), "ptrs()");
        same!(self.a.keys().map(|k| k.see()).collect::<Vec<_>>(), list.iter().map(|x| x.1).collect::<Vec<_>>(), "keys()");
        let vals: Vec<u32> = list.iter().map(|x| x.2).collect();
        same!(self.a.vals().map(|v| v.id()).collect::<Vec<_>>(), vals, "vals()");
        same!(self.a.vals_mut().map(|v| v.id()).collect::<Vec<_>>(), vals, "vals_mut()");
        let got: Vec<_> = (&self.a).into_iter().map(|(p, k, v)| (p.raw(), k.see(), v.id())).collect();
        same!(got, list, "into_iter() of a reference");
        for (i, (r, k, v)) in list.iter().enumerate() {
            let p = P::mk(*r);
            same!(self.a.get_val_mut(p).map(|x| x.id()), Some(*v), "get_val_mut({p:?})");
            same!(self.a.get_mut(p).map(|x| (x.0.see(), x.1.id())), Some((*k, *v)), "get_mut({p:?})");
            let l = self.a.get_link_no_gen(p.inx()).map(|(g, l)| (P::rawgen(g), l.t.0.see(), l.t.1.id()));
            same!(l, Some((r.1, *k, *v)), "get_link_no_gen({p:?})");
            ensure!(self.a.get2_val_mut(p, p).is_none(), "get2_val_mut of a pointer with itself");
            let mut adv = self.a.advancer_starting_from(p);
            for x in &list[i..] {
                same!(adv.advance(&self.a).map(|p| p.raw()), Some(x.0), "advancer_starting_from({p:?})");
            }
            ensure!(adv.advance(&self.a).is_none(), "advancer_starting_from({p:?}) goes on after the last entry");
        }
        if n > 0 {
            ensure!(self.a.insert_empty(Kt::new(5, 5), V::new(5)).is_none(), "insert_empty accepted by a nonempty arena");
        }
        if cfg.inert {
            let bad = self.b.invalid_ptrs(P::max_inx());
            let bad: Vec<P> = bad.into_iter().map(P::mk).chain(std::iter::once(P::invalid())).collect();
            for p in bad {
                let a = &mut self.a;
                ensure!(!a.contains(p), "contains({p:?}) is true for an invalid pointer");
                ensure!(a.get(p).is_none(), "get({p:?}) accepted an invalid pointer");
                ensure!(a.get_key(p).is_none(), "get_key({p:?}) accepted an invalid pointer");
                ensure!(a.get_val(p).is_none(), "get_val({p:?}) accepted an invalid pointer");
                ensure!(a.get_val_mut(p).is_none(), "get_val_mut({p:?}) accepted an invalid pointer");
                ensure!(a.get_mut(p).is_none(), "get_mut({p:?}) accepted an invalid pointer");
                ensure!(a.get_link(p).is_none(), "get_link({p:?}) accepted an invalid pointer");
                ensure!(a.remove(p).is_none(), "remove({p:?}) accepted an invalid pointer");
                ensure!(a.invalidate(p).is_none(), "invalidate({p:?}) accepted an invalid pointer");
                match a.replace_val_and_keep_gen(p, V::new(9_000_001)) {
                    Ok(_) => return Err(format!("replace_val_and_keep_gen({p:?}) accepted an invalid pointer")),
                    Err(t) => same!(t.id(), 9_000_001, "returned argument"),
                }
                match a.replace_val_and_update_gen(p, V::new(9_000_002)) {
                    Ok(_) => return Err(format!("replace_val_and_update_gen({p:?}) accepted an invalid pointer")),
                    Err(t) => same!(t.id(), 9_000_002, "returned argument"),
                }
                ensure!(a.swap_vals(p, p).is_none(), "swap_vals({p:?}, {p:?}) accepted an invalid pointer");
                ensure!(a.get2_val_mut(p, p).is_none(), "get2_val_mut({p:?}, {p:?}) accepted an invalid pointer");
                let mut adv = a.advancer_starting_from(p);
                ensure!(adv.advance(a).is_none(), "advancer_starting_from({p:?}) returns something for an invalid pointer");
                for i in 0..n {
                    let q = self.p(i);
                    let a = &mut self.a;
                    ensure!(
                        a.swap_vals(p, q).is_none() && a.swap_vals(q, p).is_none(),
                        "swap_vals({p:?}, {q:?}) accepted an invalid pointer"
                    );
                    ensure!(
                        a.get2_val_mut(p, q).is_none() && a.get2_val_mut(q, p).is_none(),
                        "get2_val_mut({p:?}, {q:?}) accepted an invalid pointer"
                    );
                }
            }
            same!(self.a.capacity(), self.b.cap, "capacity() after refused operations");
            same!(P::rawgen(self.a.generation()), self.b.gen, "generation() after refused operations");
            let got: Vec<_> = self.a.iter().map(|(p, k, v)| (p.raw(), k.see(), v.id())).collect();
            same!(got, list, "iter() after refused operations");
        }
        Ok(())
    }

    fn height(&self) -> u64 {
        let mut h = 0;
        for target in 0..self.n() {
            // reach the entry at `target` by position
            let pos = |p: P| self.order.iter().position(|i| *i == p.raw().0).unwrap();
            let mut steps = 0;
            self.a.find_with(|p, _, _| {
                steps += 1;
                target.cmp(&pos(p))
            });
            h = h.max(steps);
        }
        h
    }

    fn grown(&mut self, min: usize) -> R {
        let c = self.a.capacity();
        ensure!(c >= self.b.cap && c >= min, "capacity() fell from {} to {c} or is below the needed {min}", self.b.cap);
        self.b.cap = c;
        Ok(())
    }

    fn gen_between(&mut self, lo: u64, hi: u64) -> R {
        let g = P::rawgen(self.a.generation());
        if self.b.has_gen {
            ensure!(
                g >= self.b.gen + lo && g <= self.b.gen + hi,
                "generation() went from {} to {g}, expected an increase of {lo}..={hi}",
                self.b.gen
            );
            self.b.gen = g;
        }
        Ok(())
    }

    /// Takes note of a new entry; `lo..=hi` is where it may have gone
    fn inserted(&mut self, p: P, e: Ent, lo: usize, hi: usize) -> R {
        if self.b.len() == self.b.cap {
            self.grown(self.b.len() + 1)?;
        }
        let r = p.raw();
        ensure!(r.0 <= self.b.cap, "issued {p:?} beyond the capacity");
        self.b.issue(r, e)?;
        let l = self.a.get_link(p).ok_or("the new entry is not there")?;
        let pos = match (l.prev(), l.next()) {
            (None, _) => 0,
            (Some(q), _) => {
                let x = self.order.iter().position(|i| *i == q.raw().0);
                x.ok_or_else(|| format!("the new entry {p:?} follows {q:?}, which is not an entry"))? + 1
            }
        };
        ensure!(pos >= lo && pos <= hi, "the new entry went to position {pos}, expected {lo} to {hi}");
        self.order.insert(pos, r.0);
        Ok(())
    }

    fn fill(&mut self, k: &mut KeyHash) -> R {
        let cap = self.b.cap;
        let mut n = 0;
        while self.b.len() < cap {
            let id = 8_000_000 + n;
            n += 1;
            let key = u128::MAX - 1000 + n as u128;
            let len = self.n();
            let p = self.a.insert_nonhereditary(Kt::new(key, id), V::new(id));
            ensure!(p.raw().0 <= cap, "insertion issued {p:?} beyond the capacity {cap} although there was room");
            k.put(p.raw().0 as u64);
            self.inserted(p, Ent { key, kid: id, vid: id }, 0, len)?;
        }
        k.put(3 << 40);
        same!(self.a.capacity(), cap, "capacity() after filling it");
        let got: Vec<_> = self.a.iter().map(|(p, k, v)| (p.raw(), k.see(), v.id())).collect();
        same!(got, self.list(), "iter() after filling");
        Ok(())
    }

    fn key(&self, k: &mut KeyHash, cfg: &Cfg) {
        let d = self.a.debug_arena();
        let depth = |p: P| {
            let mut n = 0u64;
            let mut q = p;
            while let Some(x) = d.get(q).and_then(|x| x.4) {
                q = x;
                n += 1;
                if n > 300 {
                    break;
                }
            }
            n
        };
        k.put(self.n() as u64);
        for (i, s) in self.order.iter().enumerate() {
            let p = P::mk(self.b.raw(*s));
            k.put(depth(p));
            k.put(d.get(p).map(|x| x.0 as u64).unwrap_or(99));
            if cfg.groups & (G_NON | G_EQ) != 0 {
                k.put((i > 0 && self.e(i).key == self.e(i - 1).key) as u64);
            }
            if cfg.slots {
                k.put(*s as u64);
                if cfg.ages && self.b.has_gen {
                    k.put((self.b.gen - self.b.live[s].0).min(2));
                }
            }
        }
        if cfg.slots {
            k.put(self.b.cap as u64);
        }
        k.put(2 << 40);
    }
}

impl<P: Px> OrdWorld<P> {
    fn adv_step(adv: &mut Adv<P>, s: &Side<P>) -> R<bool> {
        match adv.adv.advance(&s.a) {
            None => {
                for m in &adv.must {
                    ensure!(
                        adv.seen.contains(m),
                        "the advancer ended without returning {m:?}, valid since it began (returned {:?})",
                        adv.seen
                    );
                }
                adv.done = true;
                adv.hold.clear();
                Ok(false)
            }
            Some(p) => {
                let r = p.raw();
                ensure!(s.b.valid(r), "the advancer returned {p:?}, which is not valid");
                if s.b.has_gen {
                    ensure!(!adv.seen.contains(&r), "the advancer returned {p:?} twice");
                }
                let k = s.b.get(r).unwrap().key;
                ensure!(adv.last.map(|l| l <= k).unwrap_or(true), "the advancer returned {p:?} out of order");
                adv.last = Some(k);
                adv.seen.push(r);
                let pos = s.order.iter().position(|i| *i == r.0).unwrap();
                adv.hold = s.order.get(pos + 1).cloned().into_iter().collect();
                Ok(true)
            }
        }
    }

    fn held(&self, pos: usize) -> bool {
        match &self.adv {
            None => false,
            Some(a) => {
                if a.done {
                    return false;
                }
                // nothing between what was returned last and what comes next may go
                let x = self.s.order[pos];
                let Some(h) = a.hold.first() else { return false };
                let hpos = self.s.order.iter().position(|i| i == h);
                let k = self.s.b.live[&x].1.key;
                a.hold.contains(&x) || (hpos.map(|h| pos <= h).unwrap_or(false) && a.last.map(|l| k > l).unwrap_or(true))
            }
        }
    }

    fn limit(&self, cfg: &Cfg) -> u64 {
        let n = self.s.n();
        if self.removed || cfg.groups & G_SHADOW != 0 {
            max_height(n)
        } else {
            max_height_insert_only(n)
        }
    }
}

impl<P: Px> World for OrdWorld<P> {
    type Op = Op;
    type Cfg = Cfg;

    fn new(_: &Cfg) -> Self {
        script_off();
        OrdWorld {
            s: Side { a: OrdArena::new(), b: Book::new::<P>(), order: vec![] },
            shadow: None,
            next: 0,
            adv: None,
            removed: false,
        }
    }

    fn ops(&self, cfg: &Cfg, out: &mut Vec<Op>) {
        let g = cfg.groups;
        let b = &self.s.b;
        let n = self.s.n() as u16;
        let mut op = |k, a: u16, bb: u16, c: u16| out.push(Op { k, a, b: bb, c });
        let can = (b.len() < b.cap || b.cap * 2 <= cfg.max_cap && b.cap < cfg.max_cap) && b.len() < cfg.max_len;
        let gap = |i: u16| self.s.gap_key(i as usize).is_some();
        let scripted = g & G_SCRIPT != 0;
        if can && !scripted {
            if g & G_MANUAL_ANY == 0 {
                for i in 0..=n {
                    if gap(i) {
                        op(K::InsGap, i, 0, 0);
                    }
                }
            } else if n == 0 {
                op(K::InsGap, 0, 0, 0);
            }
            if n == 0 && g & G_MANUAL != 0 {
                op(K::InsertEmpty, 0, 0, 0);
            }
            if g & G_NON != 0 {
                for i in 0..=n {
                    if gap(i) {
                        op(K::NonGap, i, 0, 0);
                    }
                }
                for i in 0..n {
                    op(K::NonEq, i, 0, 0);
                }
            }
            if g & G_LIN != 0 && n > 0 {
                for i in 0..=n {
                    for s in 0..=n {
                        for num in [0, 1, n / 2, n] {
                            if gap(i) {
                                op(K::LinGap, i, s, num);
                                if g & G_NON != 0 {
                                    op(K::LinNon, i, s, num);
                                }
                            }
                            if i < n {
                                op(K::LinGap, i, s, num | 0x8000);
                                if g & G_NON != 0 {
                                    op(K::LinNon, i, s, num | 0x8000);
                                }
                            }
                        }
                    }
                }
            }
        }
        if g & G_MANUAL != 0 {
            for i in 0..n {
                if can && (gap(i) || g & G_MANUAL_ANY != 0) {
                    op(K::Manual, i, 0, 0);
                }
                op(K::Manual, i, 1, 0);
                if can && (gap(i + 1) || g & G_MANUAL_ANY != 0) {
                    op(K::Manual, i, 2, 0);
                }
            }
        }
        if can && scripted {
            // all answer strings of up to four digits (a search among the entries permitted here is no longer)
            let len = max_height(n as usize).min(4) as u32;
            for d in 0..3u16.pow(len) {
                let mut x = 3 << (2 * len);
                let mut dd = d;
                for i in 0..len {
                    x |= (dd % 3) << (2 * i);
                    dd /= 3;
                }
                op(K::Scripted, x, 0, 0);
                op(K::ScriptedNon, x, 0, 0);
                if g & G_LIN != 0 {
                    for s in 1..=n {
                        op(K::Scripted, x, s, 0);
                        op(K::ScriptedNon, x, s, 1);
                    }
                }
            }
        }
        if g & G_EQ != 0 && !scripted {
            for i in 0..n {
                op(K::InsEq, i, 0, 0);
            }
        }
        let held = |i: u16| self.held(i as usize);
        if g & G_REMOVE != 0 {
            for i in 0..n {
                if !held(i) {
                    op(K::Remove, i, 0, 0);
                }
            }
        }
        if g & G_INV != 0 {
            for i in 0..n {
                if !held(i) {
                    op(K::Invalidate, i, 0, 0);
                }
            }
        }
        if g & G_REPL != 0 {
            for i in 0..n {
                op(K::ReplKeep, i, 0, 0);
                if !held(i) {
                    op(K::ReplUpd, i, 0, 0);
                }
                op(K::GetMut, i, 0, 0);
            }
        }
        if g & G_SWAP != 0 {
            for i in 0..n {
                for j in 0..n {
                    op(K::Swap, i, j, 0);
                    if i != j {
                        op(K::Get2, i, j, 0);
                    }
                }
            }
        }
        let walking = self.adv.as_ref().map(|a| !a.done).unwrap_or(false);
        if g & G_BULK != 0 && !walking {
            op(K::Clear, 0, 0, 0);
        }
        if g & G_SHRINK != 0 && !walking {
            op(K::ClearShrink, 0, 0, 0);
            op(K::Compress, 0, 0, 0);
            op(K::CompressWith, 0, 0, 0);
            op(K::CompressRecaster, 0, 0, 0);
        }
        if g & G_RESERVE != 0 {
            for r in 0..=2u16 {
                if b.cap + r as usize <= cfg.max_cap {
                    op(K::Reserve, r, 0, 0);
                }
            }
        }
        if g & G_DRAIN != 0 && !walking {
            for k in 0..=n + 1 {
                op(K::Drain, k, 0, 0);
            }
            if b.len().next_power_of_two() <= cfg.max_cap && g & (G_SCRIPT | G_MANUAL_ANY) == 0 {
                op(K::FromIter, 0, 0, 0);
            }
        }
        if g & G_CLONE != 0 {
            op(K::Clone, 0, 0, 0);
        }
        if g & G_RELOAD != 0 {
            op(K::Reload, 0, 0, 0);
            op(K::Reload, 1, 0, 0);
        }
        if g & G_SHADOW != 0 {
            op(K::CloneKeep, 0, 0, 0);
            if self.shadow.is_some() {
                op(K::ShadowFrom, 0, 0, 0);
                op(K::ShadowFromWith, 0, 0, 0);
                op(K::SwapShadow, 0, 0, 0);
            }
        }
        if g & G_ADV != 0 {
            match &self.adv {
                None => {
                    op(K::AdvStart, 0, 0, 0);
                    for i in 0..n {
                        op(K::AdvFrom, i, 0, 0);
                    }
                }
                Some(a) if !a.done => op(K::AdvStep, 0, 0, 0),
                _ => (),
            }
        }
    }

    fn apply(&mut self, cfg: &Cfg, op: Op) -> R {
        let i = op.a as usize;
        let j = op.b as usize;
        self.next += 1;
        let id = self.next;
        let s = &mut self.s;
        let n = s.n();
        // equal run around a position
        let run = |s: &Side<P>, i: usize| {
            let k = s.e(i).key;
            let lo = (0..=i).rev().take_while(|x| s.e(*x).key == k).last().unwrap();
            let hi = (i..s.n()).take_while(|x| s.e(*x).key == k).last().unwrap();
            (lo, hi)
        };
        tv::cmp_reset();
        match op.k {
            K::InsGap | K::NonGap => {
                let key = s.gap_key(i).ok_or("no key fits")?;
                let (kk, v) = (Kt::new(key, id), V::new(id));
                let p = if op.k == K::InsGap {
                    let (p, old) = s.a.insert(kk, v);
                    ensure!(old.is_none(), "insertion of a new key returned {old:?}");
                    p
                } else {
                    s.a.insert_nonhereditary(kk, v)
                };
                s.inserted(p, Ent { key, kid: id, vid: id }, i, i)?;
            }
            K::InsEq => {
                let key = s.e(i).key;
                let (p, old) = s.a.insert(Kt::new(key, id), V::new(id));
                let pos = s.order.iter().position(|x| *x == p.raw().0 && s.b.valid(p.raw()));
                let pos = pos.ok_or_else(|| format!("insertion of an equal key returned {p:?}, which is not valid"))?;
                same!(s.e(pos).key, key, "key of the entry replaced");
                let old = old.map(|(k, v)| (k.see(), v.id()));
                same!(old, Some(((key, id), s.e(pos).vid)), "what insertion of an equal key handed back");
                s.m(pos).vid = id;
            }
            K::NonEq => {
                let key = s.e(i).key;
                let (lo, hi) = run(s, i);
                let p = s.a.insert_nonhereditary(Kt::new(key, id), V::new(id));
                s.inserted(p, Ent { key, kid: id, vid: id }, lo, hi + 1)?;
            }
            K::LinGap | K::LinNon => {
                let eq = op.c & 0x8000 != 0;
                let num = (op.c & 0x7fff) as usize;
                let start = if j < n { s.p(j) } else { P::mk(s.b.stale_few()[0]) };
                let key = if eq { s.e(i).key } else { s.gap_key(i).ok_or("no key fits")? };
                let (kk, v) = (Kt::new(key, id), V::new(id));
                let e = Ent { key, kid: id, vid: id };
                if op.k == K::LinNon {
                    let (lo, hi) = if eq { run(s, i) } else { (i, i - (i > 0) as usize) };
                    let p = s.a.insert_nonhereditary_linear(start, num, kk, v);
                    if eq {
                        s.inserted(p, e, lo, hi + 1)?;
                    } else {
                        s.inserted(p, e, i, i)?;
                    }
                } else {
                    let (p, old) = s.a.insert_linear(start, num, kk, v);
                    if eq {
                        let pos = s.order.iter().position(|x| *x == p.raw().0 && s.b.valid(p.raw()));
                        let pos = pos.ok_or_else(|| format!("insert_linear returned {p:?}, which is not valid"))?;
                        same!(s.e(pos).key, key, "key of the entry replaced by insert_linear");
                        let old = old.map(|(k, v)| (k.see(), v.id()));
                        same!(old, Some(((key, id), s.e(pos).vid)), "what insert_linear of an equal key handed back");
                        s.m(pos).vid = id;
                    } else {
                        ensure!(old.is_none(), "insert_linear of a new key returned {old:?}");
                        s.inserted(p, e, i, i)?;
                    }
                }
            }
            K::Manual => {
                let p = s.p(i);
                let dir = [Ordering::Less, Ordering::Equal, Ordering::Greater][j];
                let at = if j == 2 { i + 1 } else { i };
                let key = if j == 1 {
                    s.e(i).key
                } else if cfg.groups & G_MANUAL_ANY != 0 {
                    77
                } else {
                    s.gap_key(at).ok_or("no key fits")?
                };
                let (q, old) = s.a.insert_inx_manual_unwrap(p.inx(), dir, Kt::new(key, id), V::new(id));
                if j == 1 {
                    same!(q, p, "pointer returned by a manual replacement");
                    let old = old.map(|(k, v)| (k.see(), v.id()));
                    same!(old, Some(((key, id), s.e(i).vid)), "what a manual replacement handed back");
                    s.m(i).vid = id;
                } else {
                    ensure!(old.is_none(), "manual insertion returned {old:?}");
                    s.inserted(q, Ent { key, kid: id, vid: id }, at, at)?;
                }
                same!(tv::cmp_count(), 0, "comparisons made by manual insertion");
            }
            K::InsertEmpty => {
                let key = s.gap_key(0).unwrap();
                let p = s.a.insert_empty(Kt::new(key, id), V::new(id)).ok_or("insert_empty refused by an empty arena")?;
                s.inserted(p, Ent { key, kid: id, vid: id }, 0, 0)?;
            }
            K::Scripted | K::ScriptedNon => {
                let (kk, v) = (Kt::new(id as u128, id), V::new(id));
                let start = (j > 0).then(|| s.p(j - 1));
                script(op.a as u64, if op.a & 1 == 0 { Ordering::Less } else { Ordering::Greater });
                let r = match (op.k, start) {
                    (K::Scripted, None) => s.a.insert(kk, v),
                    (K::Scripted, Some(p)) => s.a.insert_linear(p, n, kk, v),
                    (_, None) => (s.a.insert_nonhereditary(kk, v), None),
                    (_, Some(p)) => (s.a.insert_nonhereditary_linear(p, n, kk, v), None),
                };
                script_off();
                let (p, old) = r;
                match old {
                    None => s.inserted(p, Ent { key: id as u128, kid: id, vid: id }, 0, n)?,
                    Some((k, v)) => {
                        let pos = s.order.iter().position(|x| *x == p.raw().0 && s.b.valid(p.raw()));
                        let pos = pos.ok_or_else(|| format!("insertion returned {p:?}, which is not valid"))?;
                        same!((k.t.id(), v.id()), (id, s.e(pos).vid), "what a replacing insertion handed back");
                        s.m(pos).vid = id;
                    }
                }
            }
            K::Remove => {
                let p = s.p(i);
                let e = s.e(i).clone();
                let got = s.a.remove(p).map(|(k, v)| (k.see(), v.id()));
                same!(got, Some(((e.key, e.kid), e.vid)), "remove({p:?})");
                let x = s.order.remove(i);
                s.b.live.remove(&x);
                s.b.inc();
                self.removed = true;
            }
            K::Invalidate => {
                let p = s.p(i);
                let q = s.a.invalidate(p).ok_or_else(|| format!("invalidate({p:?}) refused a valid pointer"))?;
                s.b.inc();
                same!(q.raw().0, p.raw().0, "slot of an invalidated entry");
                s.b.reissue(p.raw().0, q.raw())?;
            }
            K::ReplKeep => {
                let p = s.p(i);
                let old = s.a.replace_val_and_keep_gen(p, V::new(id)).map_err(|_| format!("replace_val_and_keep_gen({p:?}) refused"))?;
                same!(old.id(), s.e(i).vid, "old value returned");
                s.m(i).vid = id;
            }
            K::ReplUpd => {
                let p = s.p(i);
                let (old, q) =
                    s.a.replace_val_and_update_gen(p, V::new(id)).map_err(|_| format!("replace_val_and_update_gen({p:?}) refused"))?;
                same!(old.id(), s.e(i).vid, "old value returned");
                s.m(i).vid = id;
                s.b.inc();
                same!(q.raw().0, p.raw().0, "slot of a replaced value");
                s.b.reissue(p.raw().0, q.raw())?;
            }
            K::GetMut => {
                let p = s.p(i);
                s.a.get_val_mut(p).ok_or("get_val_mut refused a valid pointer")?.id = id;
                same!(s.a[p].id(), id, "value after writing through get_val_mut");
                s.a.get_mut(p).ok_or("get_mut refused a valid pointer")?.1.id = id + 100_000;
                same!(s.a[p].id(), id + 100_000, "value after writing through get_mut");
                s.a[p].id = id + 200_000;
                s.m(i).vid = id + 200_000;
            }
            K::Swap => {
                let (p, q) = (s.p(i), s.p(j));
                same!(s.a.swap_vals(p, q), Some(()), "swap_vals({p:?}, {q:?})");
                let (x, y) = (s.e(i).vid, s.e(j).vid);
                s.m(i).vid = y;
                s.m(j).vid = x;
            }
            K::Get2 => {
                let (p, q) = (s.p(i), s.p(j));
                let (x, y) = s.a.get2_val_mut(p, q).ok_or("get2_val_mut refused two valid pointers")?;
                let got = (x.id(), y.id());
                x.id = id;
                y.id = id + 100_000;
                same!(got, (s.e(i).vid, s.e(j).vid), "get2_val_mut({p:?}, {q:?})");
                s.m(i).vid = id;
                s.m(j).vid = id + 100_000;
            }
            K::Clear => {
                s.a.clear();
                s.b.live.clear();
                s.order.clear();
                s.gen_between((n > 0) as u64, 1)?;
                self.removed = true;
            }
            K::ClearShrink => {
                s.a.clear_and_shrink();
                s.b.live.clear();
                s.order.clear();
                s.b.cap = 0;
                s.gen_between((n > 0) as u64, 1)?;
                self.removed = true;
            }
            K::Compress | K::CompressWith | K::CompressRecaster => {
                let old = s.list();
                let old_e: Vec<Ent> = (0..n).map(|i| s.e(i).clone()).collect();
                let mut map: Vec<(Raw, (u128, u32), u32, Raw)> = vec![];
                let plain = op.k == K::Compress;
                let mut bump = 0;
                match op.k {
                    K::Compress => s.a.compress_and_shrink(),
                    K::CompressWith => {
                        bump = 1_000;
                        s.a.compress_and_shrink_with(|p, k, v, q| {
                            map.push((p.raw(), k.see(), v.id(), q.raw()));
                            v.id += 1_000;
                        })
                    }
                    _ => {
                        let r = s.a.compress_and_shrink_recaster();
                        for (p, q) in &r {
                            map.push((p.raw(), (0, 0), 0, q.raw()));
                        }
                    }
                }
                s.b.live.clear();
                s.order.clear();
                s.b.cap = n;
                s.gen_between((n > 0) as u64, 1)?;
                same!(s.a.capacity(), n, "capacity() after compression");
                let now: Vec<(Raw, u32)> = s.a.iter().map(|(p, k, _)| (p.raw(), k.t.id())).collect();
                same!(now.len(), n, "number of entries after compression");
                for (x, (r, kid)) in now.iter().enumerate() {
                    same!(*kid, old_e[x].kid, "entry at position {x} after compression");
                    let mut e = old_e[x].clone();
                    e.vid += bump;
                    s.b.issue(*r, e)?;
                    s.order.push(r.0);
                }
                if !plain {
                    same!(map.len(), n, "number of moved entries reported by compression");
                    for (x, o) in old.iter().enumerate() {
                        let Some(m) = map.iter().find(|m| m.0 == o.0) else {
                            return Err(format!("compression did not report {:?}", o.0));
                        };
                        same!(m.3, now[x].0, "new pointer reported by compression for {:?}", o.0);
                        if bump != 0 {
                            same!((m.1, m.2), (o.1, o.2), "entry reported by compression for {:?}", o.0);
                        }
                    }
                }
                // neighbours in key order are neighbours in memory
                for w in s.order.windows(2) {
                    same!(w[1], w[0] + 1, "slot after compression next to slot {}", w[0]);
                }
                let h = s.height();
                ensure!(h <= ideal_height(n) + 1, "after compression the tree of {n} entries has {h} levels");
                self.removed = true;
            }
            K::Reserve => {
                s.a.reserve(i);
                s.grown(n + i)?;
            }
            K::Drain => {
                let old = s.list();
                let mut got = vec![];
                {
                    let mut d = s.a.drain();
                    for _ in 0..i {
                        match d.next() {
                            Some((p, k, v)) => got.push((p.raw(), k.see(), v.id())),
                            None => break,
                        }
                    }
                }
                s.b.live.clear();
                s.order.clear();
                same!(got, old[..i.min(n)].to_vec(), "entries drained in {i} steps");
                s.gen_between((n > 0) as u64, n as u64 + 2)?;
                self.removed = true;
            }
            K::FromIter => {
                let a = std::mem::replace(&mut s.a, OrdArena::new());
                let mut v: Vec<(Kt, V)> = a.capacity_drain().map(|(_, k, v)| (k, v)).collect();
                same!(v.len(), n, "entries handed out by capacity_drain");
                for (x, (k, vv)) in v.iter().enumerate() {
                    let e = s.e(x);
                    same!((k.see(), vv.id()), ((e.key, e.kid), e.vid), "entry {x} handed out by capacity_drain");
                }
                // keep only one of each key, in reversed order so that insertion has work to do
                v.reverse();
                let mut want: Vec<Ent> = vec![];
                for (k, v) in &v {
                    if let Some(e) = want.iter_mut().find(|e| e.key == k.k) {
                        e.vid = v.id();
                    } else {
                        want.push(Ent { key: k.k, kid: k.t.id(), vid: v.id() });
                    }
                }
                want.reverse();
                s.a = v.into_iter().collect();
                s.b = Book::new::<P>();
                s.b.cap = s.a.capacity();
                s.order.clear();
                ensure!(s.b.cap >= want.len(), "capacity of a collected arena is below its length");
                let now: Vec<_> = s.a.iter().map(|(p, k, v)| (p.raw(), Ent { key: k.k, kid: k.t.id(), vid: v.id() })).collect();
                same!(now.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), want, "entries of a collected arena");
                for (r, e) in now {
                    s.b.issue(r, e)?;
                    s.order.push(r.0);
                }
                self.adv = None;
            }
            K::Reload => {
                let compressed = s.order.iter().enumerate().all(|(n, i)| *i == n + 1);
                if !compressed {
                    ensure!(
                        crate::ser::write(&s.a, op.a as usize).is_err(),
                        "an arena with its entries in the slots {:?} was written without compression",
                        s.order
                    );
                    return Ok(());
                }
                let r = crate::ser::reload(&s.a, op.a as usize)?;
                let old = std::mem::replace(&mut s.b, Book::new::<P>());
                for (i, (_, e)) in old.live {
                    s.b.issue((i, s.b.gen), e)?;
                }
                s.a = r;
                s.b.cap = s.a.capacity();
                ensure!(s.b.cap >= n, "capacity {} for {n} entries", s.b.cap);
                self.adv = None;
            }
            K::Clone | K::CloneKeep => {
                let c = s.a.clone();
                let cc = c.capacity();
                ensure!(cc >= n && cc <= s.b.cap, "a clone has capacity {cc} (source: capacity {}, length {n})", s.b.cap);
                ensure!(c == s.a && s.a == c, "a clone is not equal to its source");
                if op.k == K::Clone {
                    s.b.cap = cc;
                    s.a = c;
                } else {
                    let mut b = s.b.clone();
                    b.cap = cc;
                    self.shadow = Some(Side { a: c, b, order: s.order.clone() });
                }
            }
            K::ShadowFrom | K::ShadowFromWith => {
                let sh = self.shadow.as_mut().unwrap();
                let mut b = s.b.clone();
                if op.k == K::ShadowFrom {
                    sh.a.clone_from(&s.a);
                } else {
                    let mut seen = vec![];
                    sh.a.clone_from_with(&s.a, |p, v: &V| {
                        seen.push((p.raw(), v.id()));
                        V::new(v.id() + 50_000)
                    });
                    let want = sorted(s.list().iter().map(|x| (x.0, x.2)).collect());
                    same!(sorted(seen), want, "entries given to the mapping of clone_from_with");
                    for x in b.live.values_mut() {
                        x.1.vid += 50_000;
                    }
                }
                let c = sh.a.capacity();
                ensure!(
                    c >= n && c <= s.b.cap.max(sh.b.cap),
                    "clone_from gave capacity {c}; source {}, target {}, length {n}",
                    s.b.cap,
                    sh.b.cap
                );
                b.cap = c;
                sh.b = b;
                sh.order = s.order.clone();
            }
            K::SwapShadow => {
                std::mem::swap(&mut self.s, self.shadow.as_mut().unwrap());
                self.adv = None;
            }
            K::AdvStart => {
                self.adv = Some(Adv {
                    adv: s.a.advancer(),
                    seen: vec![],
                    must: s.b.ptrs(),
                    last: None,
                    hold: s.order.first().cloned().into_iter().collect(),
                    done: false,
                });
            }
            K::AdvFrom => {
                let must = s.order[i..].iter().map(|x| s.b.raw(*x)).collect();
                let k = s.e(i).key;
                self.adv = Some(Adv {
                    adv: s.a.advancer_starting_from(s.p(i)),
                    seen: vec![],
                    must,
                    last: Some(k),
                    hold: vec![s.order[i]],
                    done: false,
                });
            }
            K::AdvStep => {
                let mut adv = self.adv.take().unwrap();
                Self::adv_step(&mut adv, &self.s)?;
                self.adv = Some(adv);
            }
        }
        if let Some(adv) = &mut self.adv {
            let b = &self.s.b;
            adv.must.retain(|r| b.valid(*r));
        }
        Ok(())
    }

    fn observe(&mut self, cfg: &Cfg) -> R {
        let limit = self.limit(cfg);
        self.s.observe(cfg, limit)?;
        if let Some(sh) = &mut self.shadow {
            sh.observe(cfg, max_height(sh.n())).map_err(|e| format!("(other arena) {e}"))?;
            let f = |s: &Side<P>| s.list().into_iter().map(|x| (x.1 .0, x.2)).collect::<Vec<_>>();
            let (x, y) = (f(&self.s), f(sh));
            same!(self.s.a == sh.a, x == y, "equality of two arenas");
            same!(sh.a == self.s.a, x == y, "equality of two arenas, the other way round");
            same!(self.s.a.cmp(&sh.a), x.cmp(&y), "ordering of two arenas");
            same!(sh.a.cmp(&self.s.a), y.cmp(&x), "ordering of two arenas, the other way round");
            same!(self.s.a.partial_cmp(&sh.a), Some(x.cmp(&y)), "partial ordering of two arenas");
        }
        let n = self.s.n() + self.shadow.as_ref().map(|s| s.n()).unwrap_or(0);
        tv::check_live(2 * n)
    }

    fn finish(mut self, cfg: &Cfg, key: &mut KeyHash) -> R {
        self.s.key(key, cfg);
        key.put(self.removed as u64);
        if let Some(adv) = &mut self.adv {
            key.put(77);
            for r in &adv.seen {
                key.put(r.0 as u64);
                key.put(self.s.b.valid(*r) as u64);
            }
            key.put(78);
            for r in &adv.must {
                key.put(r.0 as u64);
            }
            for r in &adv.hold {
                key.put(*r as u64);
            }
            key.put(adv.done as u64);
            let mut n = 0;
            while !adv.done && Self::adv_step(adv, &self.s)? {
                n += 1;
                ensure!(n <= self.s.b.cap + 1, "the advancer does not end");
            }
        }
        let scripted = cfg.groups & (G_SCRIPT | G_MANUAL_ANY) != 0;
        if cfg.full {
            let n = self.s.n();
            let c = self.s.a.clone();
            ensure!(c == self.s.a, "a clone is not equal to its source");
            let steps = if n % 2 == 0 { (n + 1) / 2 } else { n + 1 };
            let mut got = vec![];
            {
                let mut it = c.into_iter();
                for _ in 0..steps {
                    match it.next() {
                        Some((p, k, v)) => got.push((p.raw(), k.see(), v.id())),
                        None => break,
                    }
                }
            }
            let list = self.s.list();
            same!(got, list[..steps.min(n)].to_vec(), "entries handed out by consuming iteration");
            let mut tgt: Arena<P, u32> = Arena::new();
            for x in 0..(n as u32 % 4) {
                tgt.insert(x);
            }
            let mut seen = vec![];
            self.s.a.clone_to_arena(&mut tgt, |p, k, v| {
                seen.push((p.raw(), k.see(), v.id()));
                v.id() + 7
            });
            same!(sorted(seen), sorted(list.clone()), "entries given to the mapping of clone_to_arena");
            same!(tgt.len(), n, "length of the arena made by clone_to_arena");
            let mut ct: ChainArena<P, u32> = ChainArena::new();
            for x in 0..(n as u32 % 3) {
                ct.insert_new_cyclic(x);
            }
            self.s.a.clone_to_chain_arena(&mut ct, |_, _, v| v.id() + 9);
            same!(ct.len(), n, "length of the arena made by clone_to_chain_arena");
            for (i, (r, _, v)) in list.iter().enumerate() {
                let p = P::mk(*r);
                same!(tgt.get(p).copied(), Some(v + 7), "element of the arena made by clone_to_arena");
                let prev = (i > 0).then(|| P::mk(list[i - 1].0));
                let next = list.get(i + 1).map(|x| P::mk(x.0));
                let got = ct.get_link(p).map(|l| (l.prev(), l.next(), l.t));
                same!(got, Some((prev, next, v + 9)), "link of the arena made by clone_to_chain_arena");
            }
            ChainArena::_check_invariants(&ct).map_err(|e| format!("clone_to_chain_arena: {e}"))?;
            Arena::_check_invariants(&tgt).map_err(|e| format!("clone_to_arena: {e}"))?;
            same!(P::rawgen(tgt.generation()), self.s.b.gen, "generation of the arena made by clone_to_arena");
            same!(P::rawgen(ct.generation()), self.s.b.gen, "generation of the arena made by clone_to_chain_arena");
        }
        if scripted {
            script(3, Ordering::Greater);
        }
        let mut scrap = KeyHash::default();
        let k = if cfg.slots { &mut *key } else { &mut scrap };
        self.s.fill(k)?;
        if let Some(sh) = &mut self.shadow {
            sh.key(key, cfg);
            let k = if cfg.slots { &mut *key } else { &mut scrap };
            sh.fill(k)?;
        }
        script_off();
        let OrdWorld { s, shadow, .. } = self;
        drop(s.a);
        if let Some(sh) = shadow {
            let got: Vec<_> = sh.a.iter().map(|(p, k, v)| (p.raw(), k.see(), v.id())).collect();
            same!(got, sh.list(), "entries of the other arena after a drop");
        }
        Ok(())
    }
}
