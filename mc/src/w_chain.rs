//! The chain arenas against a set of doubly linked lists.

use crate::book::Book;
use crate::engine::*;
use crate::px::*;
use crate::tv::Tv;
use crate::{ensure, same};
use std::collections::BTreeMap;
use std::fmt;
use std::marker::PhantomData;
use triple_arena::utils::{ChainNoGenArena, LinkNoGen};
use triple_arena::{Advancer, Arena, ChainArena, Link};

pub type T = Tv<0>;
pub type PN2 = (Option<Raw>, Option<Raw>);
/// A link as seen from outside: interlinks (generation 0 if they carry none) and element
pub type L = (Option<Raw>, Option<Raw>, u32);

/// What both chain arenas can do, in terms of full pointers
pub trait Ch<P: Px>: Sized + Clone + PartialEq + crate::ser::Ser {
    /// whether interlinks carry generations
    const FULL: bool;
    type Adv;
    type CAdv;
    type Owned;
    fn new() -> Self;
    fn from_ids(ids: Vec<T>) -> Self;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn capacity(&self) -> usize;
    fn generation(&self) -> P::Gen;
    fn reserve(&mut self, n: usize);
    fn insert(&mut self, pn: (Option<P>, Option<P>), t: T) -> Result<P, T>;
    fn insert_with<F: FnOnce(P) -> T>(&mut self, pn: (Option<P>, Option<P>), f: F) -> Option<P>;
    fn insert_new(&mut self, t: T) -> P;
    fn insert_new_with<F: FnOnce(P) -> T>(&mut self, f: F) -> P;
    fn insert_new_cyclic(&mut self, t: T) -> P;
    fn insert_new_cyclic_with<F: FnOnce(P) -> T>(&mut self, f: F) -> P;
    fn insert_start(&mut self, p: P, t: T) -> Result<P, T>;
    fn insert_end(&mut self, p: P, t: T) -> Result<P, T>;
    fn contains(&self, p: P) -> bool;
    fn are_neighbors(&self, p: P, q: P) -> bool;
    fn are_neighbors_inx(&self, p: P, q: P) -> Option<bool>;
    fn get_link(&self, p: P) -> Option<L>;
    fn get_link_mut(&mut self, p: P) -> Option<(PN2, &mut T)>;
    fn get2_link_mut(&mut self, p: P, q: P) -> Option<(PN2, &mut T, PN2, &mut T)>;
    fn get(&self, p: P) -> Option<&T>;
    fn get_mut(&mut self, p: P) -> Option<&mut T>;
    fn get2_mut(&mut self, p: P, q: P) -> Option<(&mut T, &mut T)>;
    fn index(&self, p: P) -> u32;
    fn remove(&mut self, p: P) -> Option<L>;
    fn remove_chain(&mut self, p: P) -> Option<usize>;
    fn invalidate(&mut self, p: P) -> Option<P>;
    fn replace_and_keep_gen(&mut self, p: P, t: T) -> Result<T, T>;
    fn replace_and_update_gen(&mut self, p: P, t: T) -> Result<(T, P), T>;
    fn swap(&mut self, p: P, q: P) -> Option<()>;
    fn connect(&mut self, p: P, q: P) -> Option<()>;
    fn break_prev(&mut self, p: P) -> Option<()>;
    fn break_next(&mut self, p: P) -> Option<()>;
    fn exchange_next(&mut self, p: P, q: P) -> Option<()>;
    fn clear(&mut self);
    fn clear_and_shrink(&mut self);
    fn compress_and_shrink(&mut self);
    fn compress_and_shrink_with<F: FnMut(P, &mut T, P)>(&mut self, f: F);
    fn compress_and_shrink_recaster(&mut self) -> Arena<P, P>;
    fn clone_from_with2<F: FnMut(P, L) -> T>(&mut self, source: &Self, f: F);
    fn to_arena<F: FnMut(P, L) -> u32>(&self, a: &mut Arena<P, u32>, f: F);
    fn to_chain<F: FnMut(P, u32) -> u32>(&self, a: &mut ChainArena<P, u32>, f: F) -> bool;
    fn check(&self) -> Result<(), &'static str>;
    fn ptrs(&self) -> Vec<P>;
    fn vals(&self) -> Vec<L>;
    fn vals_mut(&mut self) -> Vec<L>;
    fn iter(&self) -> Vec<(Raw, L)>;
    fn iter_ref(&self) -> Vec<(Raw, L)>;
    fn iter_mut(&mut self) -> Vec<(Raw, L)>;
    fn iter_mut_ref(&mut self) -> Vec<(Raw, L)>;
    fn iter_chain(&self, p: P) -> Vec<(Raw, L)>;
    fn drain_k(&mut self, k: usize) -> Vec<(Raw, L)>;
    fn consume_k(self, k: usize) -> Vec<(Raw, L)>;
    fn into_ts(self) -> Vec<T>;
    fn adv(&self) -> Self::Adv;
    fn adv_step(&self, a: &mut Self::Adv) -> Option<P>;
    fn cadv(&self, p: P) -> Self::CAdv;
    fn cadv_step(&self, a: &mut Self::CAdv) -> Option<P>;
    fn raw_owned(self) -> Self::Owned;
}

macro_rules! ch {
    ($A:ident, $Lk:ident, $its:path, $full:expr, $toi:expr, $fromi:expr, $nbi:expr, $toc:expr) => {
        impl<P: Px> Ch<P> for $A<P, T> {
            const FULL: bool = $full;
            type Adv = <Self as AdvTypes>::A;
            type CAdv = <Self as AdvTypes>::C;
            type Owned = ();
            fn new() -> Self {
                $A::new()
            }
            fn from_ids(ids: Vec<T>) -> Self {
                ids.into_iter().collect()
            }
            fn len(&self) -> usize {
                self.len()
            }
            fn is_empty(&self) -> bool {
                self.is_empty()
            }
            fn capacity(&self) -> usize {
                self.capacity()
            }
            fn generation(&self) -> P::Gen {
                self.generation()
            }
            fn reserve(&mut self, n: usize) {
                self.reserve(n)
            }
            fn insert(&mut self, pn: (Option<P>, Option<P>), t: T) -> Result<P, T> {
                self.insert((pn.0.map($toi), pn.1.map($toi)), t)
            }
            fn insert_with<F: FnOnce(P) -> T>(&mut self, pn: (Option<P>, Option<P>), f: F) -> Option<P> {
                self.insert_with((pn.0.map($toi), pn.1.map($toi)), f)
            }
            fn insert_new(&mut self, t: T) -> P {
                self.insert_new(t)
            }
            fn insert_new_with<F: FnOnce(P) -> T>(&mut self, f: F) -> P {
                self.insert_new_with(f)
            }
            fn insert_new_cyclic(&mut self, t: T) -> P {
                self.insert_new_cyclic(t)
            }
            fn insert_new_cyclic_with<F: FnOnce(P) -> T>(&mut self, f: F) -> P {
                self.insert_new_cyclic_with(f)
            }
            fn insert_start(&mut self, p: P, t: T) -> Result<P, T> {
                self.insert_start(p, t)
            }
            fn insert_end(&mut self, p: P, t: T) -> Result<P, T> {
                self.insert_end(p, t)
            }
            fn contains(&self, p: P) -> bool {
                self.contains(p)
            }
            fn are_neighbors(&self, p: P, q: P) -> bool {
                self.are_neighbors(p, q)
            }
            fn are_neighbors_inx(&self, p: P, q: P) -> Option<bool> {
                $nbi(self, p, q)
            }
            fn get_link(&self, p: P) -> Option<L> {
                self.get_link(p).map(|l| (l.prev().map($fromi), l.next().map($fromi), l.t.id()))
            }
            fn get_link_mut(&mut self, p: P) -> Option<(PN2, &mut T)> {
                self.get_link_mut(p).map(|l| ((l.prev().map($fromi), l.next().map($fromi)), l.t))
            }
            fn get2_link_mut(&mut self, p: P, q: P) -> Option<(PN2, &mut T, PN2, &mut T)> {
                self.get2_link_mut(p, q).map(|(l, m)| {
                    (
                        (l.prev().map($fromi), l.next().map($fromi)),
                        l.t,
                        (m.prev().map($fromi), m.next().map($fromi)),
                        m.t,
                    )
                })
            }
            fn get(&self, p: P) -> Option<&T> {
                self.get(p)
            }
            fn get_mut(&mut self, p: P) -> Option<&mut T> {
                self.get_mut(p)
            }
            fn get2_mut(&mut self, p: P, q: P) -> Option<(&mut T, &mut T)> {
                self.get2_mut(p, q)
            }
            fn index(&self, p: P) -> u32 {
                self[p].id()
            }
            fn remove(&mut self, p: P) -> Option<L> {
                self.remove(p).map(|l| (l.prev_next().0.map($fromi), l.prev_next().1.map($fromi), l.t.id()))
            }
            fn remove_chain(&mut self, p: P) -> Option<usize> {
                self.remove_chain(p)
            }
            fn invalidate(&mut self, p: P) -> Option<P> {
                self.invalidate(p)
            }
            fn replace_and_keep_gen(&mut self, p: P, t: T) -> Result<T, T> {
                self.replace_and_keep_gen(p, t)
            }
            fn replace_and_update_gen(&mut self, p: P, t: T) -> Result<(T, P), T> {
                self.replace_and_update_gen(p, t)
            }
            fn swap(&mut self, p: P, q: P) -> Option<()> {
                self.swap(p, q)
            }
            fn connect(&mut self, p: P, q: P) -> Option<()> {
                self.connect(p, q)
            }
            fn break_prev(&mut self, p: P) -> Option<()> {
                self.break_prev(p)
            }
            fn break_next(&mut self, p: P) -> Option<()> {
                self.break_next(p)
            }
            fn exchange_next(&mut self, p: P, q: P) -> Option<()> {
                self.exchange_next(p, q)
            }
            fn clear(&mut self) {
                self.clear()
            }
            fn clear_and_shrink(&mut self) {
                self.clear_and_shrink()
            }
            fn compress_and_shrink(&mut self) {
                self.compress_and_shrink()
            }
            fn compress_and_shrink_with<F: FnMut(P, &mut T, P)>(&mut self, f: F) {
                self.compress_and_shrink_with(f)
            }
            fn compress_and_shrink_recaster(&mut self) -> Arena<P, P> {
                self.compress_and_shrink_recaster()
            }
            fn clone_from_with2<F: FnMut(P, L) -> T>(&mut self, source: &Self, mut f: F) {
                self.clone_from_with(source, |p, l| f(p, (l.prev().map($fromi), l.next().map($fromi), l.t.id())))
            }
            fn to_arena<F: FnMut(P, L) -> u32>(&self, a: &mut Arena<P, u32>, mut f: F) {
                self.clone_to_arena(a, |p, l: &$Lk<P, T>| f(p, (l.prev().map($fromi), l.next().map($fromi), l.t.id())))
            }
            fn to_chain<F: FnMut(P, u32) -> u32>(&self, a: &mut ChainArena<P, u32>, f: F) -> bool {
                $toc(self, a, f)
            }
            fn check(&self) -> Result<(), &'static str> {
                $A::_check_invariants(self)
            }
            fn ptrs(&self) -> Vec<P> {
                self.ptrs().collect()
            }
            fn vals(&self) -> Vec<L> {
                self.vals().map(|l| (l.prev().map($fromi), l.next().map($fromi), l.t.id())).collect()
            }
            fn vals_mut(&mut self) -> Vec<L> {
                self.vals_mut().map(|l| (l.prev().map($fromi), l.next().map($fromi), l.t.id())).collect()
            }
            fn iter(&self) -> Vec<(Raw, L)> {
                self.iter().map(|(p, l)| (p.raw(), (l.prev().map($fromi), l.next().map($fromi), l.t.id()))).collect()
            }
            fn iter_ref(&self) -> Vec<(Raw, L)> {
                self.into_iter()
                    .map(|(p, l)| (p.raw(), (l.prev().map($fromi), l.next().map($fromi), l.t.id())))
                    .collect()
            }
            fn iter_mut(&mut self) -> Vec<(Raw, L)> {
                self.iter_mut()
                    .map(|(p, l)| (p.raw(), (l.prev().map($fromi), l.next().map($fromi), l.t.id())))
                    .collect()
            }
            fn iter_mut_ref(&mut self) -> Vec<(Raw, L)> {
                (&mut *self)
                    .into_iter()
                    .map(|(p, l)| (p.raw(), (l.prev().map($fromi), l.next().map($fromi), l.t.id())))
                    .collect()
            }
            fn iter_chain(&self, p: P) -> Vec<(Raw, L)> {
                self.iter_chain($toi(p))
                    .map(|(p, l)| (p.raw(), (l.prev().map($fromi), l.next().map($fromi), l.t.id())))
                    .collect()
            }
            fn drain_k(&mut self, k: usize) -> Vec<(Raw, L)> {
                let mut d = self.drain();
                let mut v = vec![];
                for _ in 0..k {
                    match d.next() {
                        Some((p, l)) => v.push((p.raw(), (l.prev().map($fromi), l.next().map($fromi), l.t.id()))),
                        None => break,
                    }
                }
                v
            }
            fn consume_k(self, k: usize) -> Vec<(Raw, L)> {
                let mut d = self.into_iter();
                let mut v = vec![];
                for _ in 0..k {
                    match d.next() {
                        Some((p, l)) => v.push((p.raw(), (l.prev().map($fromi), l.next().map($fromi), l.t.id()))),
                        None => break,
                    }
                }
                v
            }
            fn into_ts(self) -> Vec<T> {
                self.capacity_drain().map(|x| x.1.t).collect()
            }
            fn adv(&self) -> Self::Adv {
                self.advancer()
            }
            fn adv_step(&self, a: &mut Self::Adv) -> Option<P> {
                a.advance(self)
            }
            fn cadv(&self, p: P) -> Self::CAdv {
                self.advancer_chain($toi(p))
            }
            fn cadv_step(&self, a: &mut Self::CAdv) -> Option<P> {
                a.advance(self)
            }
            fn raw_owned(self) {}
        }
    };
}

pub trait AdvTypes {
    type A;
    type C;
}
impl<P: Px> AdvTypes for ChainArena<P, T> {
    type A = triple_arena::chain_iterators::PtrAdvancer<P, T>;
    type C = triple_arena::chain_iterators::ChainPtrAdvancer<P, T>;
}
impl<P: Px> AdvTypes for ChainNoGenArena<P, T> {
    type A = triple_arena::utils::chain_no_gen_iterators::PtrAdvancer<P, T>;
    type C = triple_arena::utils::chain_no_gen_iterators::ChainPtrAdvancer<P, T>;
}

fn inx_raw<I: triple_arena::utils::PtrInx>(i: I) -> Raw {
    (I::get(i).get(), 0)
}
fn nbi_no<P: Px>(_: &ChainArena<P, T>, _: P, _: P) -> Option<bool> {
    None
}
fn nbi_yes<P: Px>(a: &ChainNoGenArena<P, T>, p: P, q: P) -> Option<bool> {
    Some(a.are_neighbors_inx(p.inx(), q.inx()))
}
fn toc_no<P: Px, F: FnMut(P, u32) -> u32>(_: &ChainArena<P, T>, _: &mut ChainArena<P, u32>, _: F) -> bool {
    false
}
fn toc_yes<P: Px, F: FnMut(P, u32) -> u32>(s: &ChainNoGenArena<P, T>, a: &mut ChainArena<P, u32>, mut f: F) -> bool {
    s.clone_to_chain_arena(a, |p, t| f(p, t.id()));
    true
}

ch!(ChainArena, Link, triple_arena::chain_iterators, true, |p: P| p, |p: P| p.raw(), nbi_no, toc_no);
ch!(ChainNoGenArena, LinkNoGen, triple_arena::utils, false, |p: P| p.inx(), inx_raw, nbi_yes, toc_yes);

#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(C)]
pub struct Op {
    pub k: K,
    pub a: u16,
    pub b: u16,
}
impl fmt::Debug for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}({},{})", self.k, self.a, self.b)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u16)]
pub enum K {
    InsertNew,
    InsertNewWith,
    InsertCyc,
    InsertCycWith,
    /// slots of prev and next, 0 for none
    Insert,
    InsertWith,
    InsertStart,
    InsertEnd,
    Remove,
    RemoveChain,
    Invalidate,
    ReplKeep,
    ReplUpd,
    GetMut,
    Swap,
    Get2,
    Connect,
    BreakPrev,
    BreakNext,
    Exchange,
    Clear,
    ClearShrink,
    Compress,
    CompressWith,
    CompressRecaster,
    Reserve,
    Drain,
    FromIter,
    Clone,
    CloneKeep,
    ShadowFrom,
    ShadowFromWith,
    SwapShadow,
    AdvStart,
    AdvStep,
    CAdvStart,
    CAdvStep,
    Reload,
}

pub const G_INV: u32 = 1;
pub const G_REPL: u32 = 2;
pub const G_SWAP: u32 = 4;
pub const G_CHAIN: u32 = 8;
pub const G_LINKS: u32 = 16;
pub const G_BULK: u32 = 32;
pub const G_SHRINK: u32 = 64;
pub const G_RESERVE: u32 = 128;
pub const G_DRAIN: u32 = 256;
pub const G_CLONE: u32 = 512;
pub const G_SHADOW: u32 = 1024;
pub const G_ADV: u32 = 2048;
pub const G_CADV: u32 = 4096;
pub const G_WITH: u32 = 8192;
pub const G_RELOAD: u32 = 1 << 20;

pub struct Cfg {
    pub groups: u32,
    pub max_cap: usize,
    pub ages: bool,
    pub full: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Lk {
    pub prev: Option<usize>,
    pub next: Option<usize>,
    pub id: u32,
}

pub struct Side<P: Px, C: Ch<P>> {
    pub a: C,
    pub b: Book<Lk>,
    _p: PhantomData<P>,
}

struct Adv<A> {
    adv: A,
    seen: Vec<Raw>,
    must: Vec<Raw>,
    done: bool,
}
struct CAdv<A> {
    adv: A,
    init: Raw,
    expect: Vec<Raw>,
    links: Vec<(Raw, Option<usize>, Option<usize>)>,
    pos: usize,
    steps: usize,
    len0: usize,
    /// whether an end was met, and where the walk goes from the last one returned
    end: bool,
    around: Option<Raw>,
    touched: bool,
    done: bool,
}

pub struct ChainWorld<P: Px, C: Ch<P>> {
    pub s: Side<P, C>,
    shadow: Option<Side<P, C>>,
    next: u32,
    adv: Option<Adv<C::Adv>>,
    cadv: Option<CAdv<C::CAdv>>,
}

fn sorted<X: Ord>(mut v: Vec<X>) -> Vec<X> {
    v.sort();
    v
}

impl<P: Px, C: Ch<P>> Side<P, C> {
    fn il(&self, i: Option<usize>) -> Option<Raw> {
        i.map(|i| (i, if C::FULL { self.b.live[&i].0 } else { 0 }))
    }
    fn link(&self, i: usize) -> L {
        let l = &self.b.live[&i].1;
        (self.il(l.prev), self.il(l.next), l.id)
    }
    fn pairs(&self) -> Vec<(Raw, L)> {
        self.b.live.iter().map(|(i, (g, _))| ((*i, *g), self.link(*i))).collect()
    }
    fn m(&mut self, i: usize) -> &mut Lk {
        &mut self.b.live.get_mut(&i).unwrap().1
    }
    fn p(&self, i: usize) -> P {
        P::mk(self.b.raw(i))
    }

    /// The slots of a chain in traversal order from `i`
    pub fn walk(&self, i: usize) -> Vec<usize> {
        let mut v = vec![i];
        let mut j = i;
        while let Some(n) = self.b.live[&j].1.next {
            if n == i {
                return v;
            }
            v.push(n);
            j = n;
        }
        let mut j = i;
        while let Some(n) = self.b.live[&j].1.prev {
            v.push(n);
            j = n;
        }
        v
    }

    fn chain(&self, i: usize) -> Vec<(Raw, Option<usize>, Option<usize>)> {
        let l = |j: usize| &self.b.live[&j].1;
        self.walk(i).into_iter().map(|j| (self.b.raw(j), l(j).prev, l(j).next)).collect()
    }

    fn observe(&mut self, full: bool) -> R {
        same!(self.a.len(), self.b.len(), "len()");
        same!(self.a.is_empty(), self.b.is_empty(), "is_empty()");
        same!(self.a.capacity(), self.b.cap, "capacity()");
        same!(P::rawgen(self.a.generation()), self.b.gen, "generation()");
        let pairs = self.pairs();
        for (r, l) in &pairs {
            let p = P::mk(*r);
            ensure!(self.a.contains(p), "contains({p:?}) is false for a live link");
            same!(self.a.get_link(p), Some(*l), "get_link({p:?})");
            same!(self.a.get(p).map(|t| t.id()), Some(l.2), "get({p:?})");
            same!(self.a.index(p), l.2, "index {p:?}");
        }
        ensure!(!self.a.contains(P::invalid()), "Ptr::invalid() is accepted");
        if !full {
            return Ok(());
        }
        for (r, l) in &pairs {
            let p = P::mk(*r);
            same!(self.a.get_link_mut(p).map(|x| (x.0, x.1.id())), Some(((l.0, l.1), l.2)), "get_link_mut({p:?})");
            same!(self.a.get_mut(p).map(|t| t.id()), Some(l.2), "get_mut({p:?})");
            ensure!(self.a.get2_mut(p, p).is_none(), "get2_mut of a pointer with itself");
            ensure!(self.a.get2_link_mut(p, p).is_none(), "get2_link_mut of a pointer with itself");
        }
        let links = sorted(pairs.iter().map(|x| x.1).collect::<Vec<_>>());
        same!(sorted(self.a.ptrs().into_iter().map(|p| p.raw()).collect()), self.b.ptrs(), "ptrs()");
        same!(sorted(self.a.vals()), links, "vals()");
        same!(sorted(self.a.vals_mut()), links, "vals_mut()");
        same!(sorted(self.a.iter()), pairs, "iter()");
        same!(sorted(self.a.iter_ref()), pairs, "into_iter() of a reference");
        same!(sorted(self.a.iter_mut()), pairs, "iter_mut()");
        same!(sorted(self.a.iter_mut_ref()), pairs, "into_iter() of a mutable reference");
        // pairs of live links
        let live: Vec<usize> = self.b.live.keys().cloned().collect();
        for &i in &live {
            let walk: Vec<(Raw, L)> = self.walk(i).into_iter().map(|j| (self.b.raw(j), self.link(j))).collect();
            let p = self.p(i);
            same!(self.a.iter_chain(p), walk, "iter_chain({p:?})");
            let mut adv = self.a.cadv(p);
            for (r, _) in &walk {
                same!(self.a.cadv_step(&mut adv).map(|p| p.raw()), Some(*r), "advancer_chain({p:?})");
            }
            ensure!(self.a.cadv_step(&mut adv).is_none(), "advancer_chain({p:?}) goes on after the whole chain");
            let li = self.b.live[&i].1.clone();
            if li.prev.is_some() {
                match self.a.insert_start(p, T::new(9_000_001)) {
                    Ok(_) => return Err(format!("insert_start({p:?}) accepted a link that is not a start")),
                    Err(t) => same!(t.id(), 9_000_001, "returned argument"),
                }
            } else {
                ensure!(self.a.break_prev(p).is_none(), "break_prev({p:?}) succeeded without a previous link");
            }
            if li.next.is_some() {
                match self.a.insert_end(p, T::new(9_000_001)) {
                    Ok(_) => return Err(format!("insert_end({p:?}) accepted a link that is not an end")),
                    Err(t) => same!(t.id(), 9_000_001, "returned argument"),
                }
            } else {
                ensure!(self.a.break_next(p).is_none(), "break_next({p:?}) succeeded without a next link");
            }
            for &j in &live {
                let q = self.p(j);
                let nb = li.next == Some(j);
                same!(self.a.are_neighbors(p, q), nb, "are_neighbors({p:?}, {q:?})");
                if let Some(x) = self.a.are_neighbors_inx(p, q) {
                    same!(x, nb, "are_neighbors_inx({p:?}, {q:?})");
                }
                if !nb {
                    match self.a.insert((Some(p), Some(q)), T::new(9_000_002)) {
                        Ok(_) => return Err(format!("insert between {p:?} and {q:?}, which are not neighbors, succeeded")),
                        Err(t) => same!(t.id(), 9_000_002, "returned argument"),
                    }
                    let mut called = false;
                    let r = self.a.insert_with((Some(p), Some(q)), |_| {
                        called = true;
                        T::new(9_000_002)
                    });
                    ensure!(r.is_none() && !called, "insert_with between {p:?} and {q:?}, which are not neighbors");
                }
                let lj = &self.b.live[&j].1;
                if !(li.next.is_none() && lj.prev.is_none()) {
                    ensure!(self.a.connect(p, q).is_none(), "connect({p:?}, {q:?}) succeeded on connected links");
                }
                if !(li.next.is_some() && lj.next.is_some()) {
                    ensure!(self.a.exchange_next(p, q).is_none(), "exchange_next({p:?}, {q:?}) succeeded without next links");
                }
            }
        }
        // invalid pointers
        let bad = self.b.invalid_ptrs(P::max_inx());
        let bad: Vec<P> = bad.into_iter().map(P::mk).chain(std::iter::once(P::invalid())).collect();
        for p in bad {
            let inx_live = self.b.live.contains_key(&p.raw().0);
            let a = &mut self.a;
            ensure!(!a.contains(p), "contains({p:?}) is true for an invalid pointer");
            ensure!(a.get_link(p).is_none(), "get_link({p:?}) accepted an invalid pointer");
            ensure!(a.get_link_mut(p).is_none(), "get_link_mut({p:?}) accepted an invalid pointer");
            ensure!(a.get(p).is_none(), "get({p:?}) accepted an invalid pointer");
            ensure!(a.get_mut(p).is_none(), "get_mut({p:?}) accepted an invalid pointer");
            ensure!(a.remove(p).is_none(), "remove({p:?}) accepted an invalid pointer");
            ensure!(a.remove_chain(p).is_none(), "remove_chain({p:?}) accepted an invalid pointer");
            ensure!(a.invalidate(p).is_none(), "invalidate({p:?}) accepted an invalid pointer");
            ensure!(a.break_prev(p).is_none(), "break_prev({p:?}) accepted an invalid pointer");
            ensure!(a.break_next(p).is_none(), "break_next({p:?}) accepted an invalid pointer");
            match a.replace_and_keep_gen(p, T::new(9_000_003)) {
                Ok(_) => return Err(format!("replace_and_keep_gen({p:?}) accepted an invalid pointer")),
                Err(t) => same!(t.id(), 9_000_003, "returned argument"),
            }
            match a.replace_and_update_gen(p, T::new(9_000_004)) {
                Ok(_) => return Err(format!("replace_and_update_gen({p:?}) accepted an invalid pointer")),
                Err(t) => same!(t.id(), 9_000_004, "returned argument"),
            }
            match a.insert_start(p, T::new(9_000_005)) {
                Ok(_) => return Err(format!("insert_start({p:?}) accepted an invalid pointer")),
                Err(t) => same!(t.id(), 9_000_005, "returned argument"),
            }
            match a.insert_end(p, T::new(9_000_006)) {
                Ok(_) => return Err(format!("insert_end({p:?}) accepted an invalid pointer")),
                Err(t) => same!(t.id(), 9_000_006, "returned argument"),
            }
            ensure!(a.swap(p, p).is_none(), "swap({p:?}, {p:?}) accepted an invalid pointer");
            ensure!(a.exchange_next(p, p).is_none(), "exchange_next({p:?}, {p:?}) accepted an invalid pointer");
            ensure!(a.connect(p, p).is_none(), "connect({p:?}, {p:?}) accepted an invalid pointer");
            ensure!(!a.are_neighbors(p, p), "are_neighbors({p:?}, {p:?}) accepted an invalid pointer");
            // interlink arguments without generation are judged by index alone
            let refuse_inx = C::FULL || !inx_live;
            if refuse_inx {
                ensure!(a.iter_chain(p).is_empty(), "iter_chain({p:?}) visits something from an invalid pointer");
                let mut adv = a.cadv(p);
                ensure!(a.cadv_step(&mut adv).is_none(), "advancer_chain({p:?}) visits something from an invalid pointer");
                for pn in [(None, Some(p)), (Some(p), None), (Some(p), Some(p))] {
                    match a.insert(pn, T::new(9_000_007)) {
                        Ok(_) => return Err(format!("insert({pn:?}) accepted an invalid pointer")),
                        Err(t) => same!(t.id(), 9_000_007, "returned argument"),
                    }
                    let mut called = false;
                    let r = a.insert_with(pn, |_| {
                        called = true;
                        T::new(9_000_008)
                    });
                    ensure!(r.is_none() && !called, "insert_with({pn:?}) accepted an invalid pointer");
                }
            }
            // with every live one
            for &j in &live {
                let q = self.p(j);
                let a = &mut self.a;
                ensure!(a.swap(p, q).is_none() && a.swap(q, p).is_none(), "swap({p:?}, {q:?}) accepted an invalid pointer");
                ensure!(
                    a.get2_mut(p, q).is_none() && a.get2_mut(q, p).is_none(),
                    "get2_mut({p:?}, {q:?}) accepted an invalid pointer"
                );
                ensure!(
                    a.get2_link_mut(p, q).is_none() && a.get2_link_mut(q, p).is_none(),
                    "get2_link_mut({p:?}, {q:?}) accepted an invalid pointer"
                );
                ensure!(
                    a.connect(p, q).is_none() && a.connect(q, p).is_none(),
                    "connect({p:?}, {q:?}) accepted an invalid pointer"
                );
                ensure!(
                    a.exchange_next(p, q).is_none() && a.exchange_next(q, p).is_none(),
                    "exchange_next({p:?}, {q:?}) accepted an invalid pointer"
                );
                ensure!(!a.are_neighbors(p, q), "are_neighbors({p:?}, {q:?}) with a first pointer that is invalid");
                ensure!(!a.are_neighbors(q, p), "are_neighbors({q:?}, {p:?}) with a second pointer that is invalid");
                if refuse_inx {
                    for pn in [(Some(q), Some(p)), (Some(p), Some(q))] {
                        match a.insert(pn, T::new(9_000_009)) {
                            Ok(_) => return Err(format!("insert({pn:?}) accepted an invalid pointer")),
                            Err(t) => same!(t.id(), 9_000_009, "returned argument"),
                        }
                        let r = a.insert_with(pn, |_| T::new(9_000_009));
                        ensure!(r.is_none(), "insert_with({pn:?}) accepted an invalid pointer");
                    }
                }
            }
        }
        same!(self.a.len(), self.b.len(), "len() after refused operations");
        same!(self.a.capacity(), self.b.cap, "capacity() after refused operations");
        same!(P::rawgen(self.a.generation()), self.b.gen, "generation() after refused operations");
        same!(sorted(self.a.iter()), pairs, "iter() after refused operations");
        self.a.check().map_err(|e| format!("internal invariants: {e}"))?;
        Ok(())
    }

    fn grown(&mut self, min: usize) -> R {
        let c = self.a.capacity();
        ensure!(c >= self.b.cap && c >= min, "capacity() fell from {} to {c} or is below the needed {min}", self.b.cap);
        self.b.cap = c;
        Ok(())
    }

    fn gen_between(&mut self, lo: u64, hi: u64) -> R {
        let g = P::rawgen(self.a.generation());
        if self.b.has_gen {
            ensure!(
                g >= self.b.gen + lo && g <= self.b.gen + hi,
                "generation() went from {} to {g}, expected an increase of {lo}..={hi}",
                self.b.gen
            );
            self.b.gen = g;
        }
        Ok(())
    }

    fn inserted(&mut self, p: P, prev: Option<usize>, next: Option<usize>, id: u32) -> R {
        let full = self.b.len() == self.b.cap;
        if full {
            self.grown(self.b.len() + 1)?;
        }
        let r = p.raw();
        ensure!(r.0 <= self.b.cap, "issued {p:?} beyond the capacity");
        self.b.issue(r, Lk { prev, next, id })?;
        if let Some(x) = prev {
            if x != r.0 {
                self.m(x).next = Some(r.0);
            }
        }
        if let Some(x) = next {
            if x != r.0 {
                self.m(x).prev = Some(r.0);
            }
        }
        Ok(())
    }

    fn fill(&mut self, k: &mut KeyHash) -> R {
        let cap = self.b.cap;
        let mut n = 0;
        while self.b.len() < cap {
            let id = 8_000_000 + n;
            n += 1;
            let p = self.a.insert_new(T::new(id));
            let r = p.raw();
            ensure!(r.0 <= cap, "insertion issued {p:?} beyond the capacity {cap} although there was room");
            self.b.issue(r, Lk { prev: None, next: None, id })?;
            k.put(r.0 as u64);
        }
        k.put(3 << 40);
        same!(self.a.capacity(), cap, "capacity() after filling it");
        same!(self.a.len(), cap, "len() after filling");
        for (r, l) in self.pairs() {
            same!(self.a.get_link(P::mk(r)), Some(l), "get_link after filling");
        }
        Ok(())
    }

    fn key(&self, k: &mut KeyHash, ages: bool) {
        self.b.key(k, ages);
        for (_, (_, l)) in &self.b.live {
            k.put(l.prev.unwrap_or(0) as u64);
            k.put(l.next.unwrap_or(0) as u64);
        }
        k.put(2 << 40);
    }
}

impl<P: Px, C: Ch<P>> ChainWorld<P, C> {
    /// The slot of the link inserted last
    pub fn last(&self) -> usize {
        *self.s.b.live.iter().find(|x| x.1 .1.id == self.next).unwrap().0
    }

    /// Chain traversal from a few places of every chain
    pub fn walks(&mut self) -> R {
        let s = &self.s;
        let live: Vec<usize> = s.b.live.keys().cloned().collect();
        let mut at: Vec<usize> = live.iter().step_by((live.len() / 6).max(1)).cloned().collect();
        at.extend(live.last());
        for i in at {
            let walk: Vec<(Raw, L)> = s.walk(i).into_iter().map(|j| (s.b.raw(j), s.link(j))).collect();
            let p = s.p(i);
            same!(s.a.iter_chain(p), walk, "iter_chain({p:?})");
        }
        same!(sorted(s.a.iter()), s.pairs(), "iter()");
        s.a.check().map_err(|e| format!("internal invariants: {e}"))
    }

    /// A chain of `n` links, in order
    pub fn build(&mut self, cfg: &Cfg, n: usize, cyclic: bool) -> R<Vec<usize>> {
        let mut v: Vec<usize> = vec![];
        for i in 0..n {
            let op = match i {
                0 if cyclic => Op { k: K::InsertCyc, a: 0, b: 0 },
                0 => Op { k: K::InsertNew, a: 0, b: 0 },
                _ => Op { k: K::Insert, a: v[i - 1] as u16, b: 0 },
            };
            self.apply(cfg, op)?;
            v.push(self.last());
        }
        Ok(v)
    }

    fn adv_step(adv: &mut Adv<C::Adv>, s: &Side<P, C>) -> R<bool> {
        match s.a.adv_step(&mut adv.adv) {
            None => {
                for m in &adv.must {
                    ensure!(
                        adv.seen.contains(m),
                        "the advancer ended without returning {m:?}, valid since it began (returned {:?})",
                        adv.seen
                    );
                }
                adv.done = true;
                Ok(false)
            }
            Some(p) => {
                let r = p.raw();
                ensure!(s.b.valid(r), "the advancer returned {p:?}, which is not valid");
                if s.b.has_gen {
                    ensure!(!adv.seen.contains(&r), "the advancer returned {p:?} twice");
                }
                adv.seen.push(r);
                Ok(true)
            }
        }
    }

    fn cadv_step(c: &mut CAdv<C::CAdv>, s: &Side<P, C>) -> R<bool> {
        let got = s.a.cadv_step(&mut c.adv);
        c.steps += 1;
        ensure!(c.steps <= 64, "the chain advancer does not end");
        if let Some(p) = got {
            let r = p.raw();
            ensure!(s.b.valid(r), "the chain advancer returned {p:?}, which is not valid");
            let l = &s.b.live[&r.0].1;
            let to = if c.end {
                l.prev
            } else if l.next.is_some() {
                l.next.filter(|i| *i != c.init.0)
            } else if s.b.valid(c.init) {
                s.b.live[&c.init.0].1.prev
            } else {
                None
            };
            c.end |= l.next.is_none();
            c.around = to.map(|i| s.b.raw(i));
        }
        if !c.touched {
            let want = c.expect.get(c.pos).cloned();
            same!(got.map(|p| p.raw()), want, "step {} of the chain advancer from {:?}", c.steps, c.init);
        }
        c.pos += 1;
        if got.is_none() {
            c.done = true;
        }
        Ok(got.is_some())
    }

    /// whether the chain being walked is as it was when the walk began
    fn track(&mut self) {
        let s = &self.s;
        if let Some(adv) = &mut self.adv {
            adv.must.retain(|r| s.b.valid(*r));
        }
        if let Some(c) = &mut self.cadv {
            if !c.touched {
                if !s.b.valid(c.init) || s.chain(c.init.0) != c.links {
                    c.touched = true;
                }
            }
        }
    }
}

impl<P: Px, C: Ch<P>> World for ChainWorld<P, C> {
    type Op = Op;
    type Cfg = Cfg;

    fn new(_: &Cfg) -> Self {
        ChainWorld {
            s: Side { a: C::new(), b: Book::new::<P>(), _p: PhantomData },
            shadow: None,
            next: 0,
            adv: None,
            cadv: None,
        }
    }

    fn ops(&self, cfg: &Cfg, out: &mut Vec<Op>) {
        let g = cfg.groups;
        let b = &self.s.b;
        let live: Vec<u16> = b.live.keys().map(|x| *x as u16).collect();
        let l = |i: u16| &b.live[&(i as usize)].1;
        let mut op = |k, a: u16, bb: u16| out.push(Op { k, a, b: bb });
        let can = b.len() < b.cap || b.cap * 2 <= cfg.max_cap && b.cap < cfg.max_cap;
        if can {
            op(K::InsertNew, 0, 0);
            op(K::InsertCyc, 0, 0);
            if g & G_WITH != 0 {
                op(K::InsertNewWith, 0, 0);
                op(K::InsertCycWith, 0, 0);
                op(K::Insert, 0, 0);
                op(K::InsertWith, 0, 0);
            }
            for &i in &live {
                op(K::Insert, i, 0);
                op(K::Insert, 0, i);
                if l(i).prev.is_none() {
                    op(K::InsertStart, i, 0);
                }
                if let Some(n) = l(i).next {
                    op(K::Insert, i, n as u16);
                } else {
                    op(K::InsertEnd, i, 0);
                }
                if g & G_WITH != 0 {
                    op(K::InsertWith, i, 0);
                    op(K::InsertWith, 0, i);
                    if let Some(n) = l(i).next {
                        op(K::InsertWith, i, n as u16);
                    }
                }
            }
        }
        for &i in &live {
            op(K::Remove, i, 0);
        }
        if g & G_CHAIN != 0 {
            for &i in &live {
                op(K::RemoveChain, i, 0);
            }
        }
        if g & G_INV != 0 {
            for &i in &live {
                op(K::Invalidate, i, 0);
            }
        }
        if g & G_REPL != 0 {
            for &i in &live {
                op(K::ReplKeep, i, 0);
                op(K::ReplUpd, i, 0);
                op(K::GetMut, i, 0);
            }
        }
        if g & G_SWAP != 0 {
            for &i in &live {
                for &j in &live {
                    op(K::Swap, i, j);
                    if i != j {
                        op(K::Get2, i, j);
                    }
                }
            }
        }
        if g & G_LINKS != 0 {
            for &i in &live {
                if l(i).prev.is_some() {
                    op(K::BreakPrev, i, 0);
                }
                if l(i).next.is_some() {
                    op(K::BreakNext, i, 0);
                }
                for &j in &live {
                    if l(i).next.is_none() && l(j).prev.is_none() {
                        op(K::Connect, i, j);
                    }
                    if l(i).next.is_some() && l(j).next.is_some() {
                        op(K::Exchange, i, j);
                    }
                }
            }
        }
        if g & G_BULK != 0 {
            op(K::Clear, 0, 0);
        }
        if g & G_SHRINK != 0 {
            op(K::ClearShrink, 0, 0);
            op(K::Compress, 0, 0);
            op(K::CompressWith, 0, 0);
            op(K::CompressRecaster, 0, 0);
        }
        if g & G_RESERVE != 0 {
            for r in 0..=2u16 {
                if b.cap + r as usize <= cfg.max_cap {
                    op(K::Reserve, r, 0);
                }
            }
        }
        if g & G_DRAIN != 0 {
            for k in 0..=b.len() as u16 + 1 {
                op(K::Drain, k, 0);
            }
            if b.len().next_power_of_two() <= cfg.max_cap {
                op(K::FromIter, 0, 0);
            }
        }
        if g & G_CLONE != 0 {
            op(K::Clone, 0, 0);
        }
        if g & G_RELOAD != 0 {
            op(K::Reload, 0, 0);
            op(K::Reload, 1, 0);
        }
        if g & G_SHADOW != 0 {
            op(K::CloneKeep, 0, 0);
            if self.shadow.is_some() {
                op(K::ShadowFrom, 0, 0);
                op(K::ShadowFromWith, 0, 0);
                op(K::SwapShadow, 0, 0);
            }
        }
        if g & G_ADV != 0 {
            match &self.adv {
                None => op(K::AdvStart, 0, 0),
                Some(a) if !a.done => op(K::AdvStep, 0, 0),
                _ => (),
            }
        }
        if g & G_CADV != 0 {
            match &self.cadv {
                None => {
                    for &i in &live {
                        op(K::CAdvStart, i, 0)
                    }
                }
                Some(a) if !a.done => op(K::CAdvStep, 0, 0),
                _ => (),
            }
        }
    }

    fn apply(&mut self, _cfg: &Cfg, op: Op) -> R {
        let i = op.a as usize;
        let j = op.b as usize;
        self.next += 1;
        let id = self.next;
        let s = &mut self.s;
        match op.k {
            K::InsertNew => {
                let p = s.a.insert_new(T::new(id));
                s.inserted(p, None, None, id)?;
            }
            K::InsertNewWith => {
                let mut given = None;
                let p = s.a.insert_new_with(|p| {
                    given = Some(p);
                    T::new(id)
                });
                same!(given, Some(p), "pointer given to the creation function");
                s.inserted(p, None, None, id)?;
            }
            K::InsertCyc | K::InsertCycWith => {
                let p = if op.k == K::InsertCyc {
                    s.a.insert_new_cyclic(T::new(id))
                } else {
                    let mut given = None;
                    let p = s.a.insert_new_cyclic_with(|p| {
                        given = Some(p);
                        T::new(id)
                    });
                    same!(given, Some(p), "pointer given to the creation function");
                    p
                };
                let x = p.raw().0;
                s.inserted(p, Some(x), Some(x), id)?;
            }
            K::Insert | K::InsertWith => {
                let pn = ((i != 0).then(|| s.p(i)), (j != 0).then(|| s.p(j)));
                let (mut prev, mut next) = ((i != 0).then_some(i), (j != 0).then_some(j));
                if let (Some(x), None) = (prev, next) {
                    next = s.b.live[&x].1.next;
                } else if let (None, Some(x)) = (prev, next) {
                    prev = s.b.live[&x].1.prev;
                }
                let p = if op.k == K::Insert {
                    s.a.insert(pn, T::new(id)).map_err(|_| format!("insert({pn:?}) refused"))?
                } else {
                    let mut given = None;
                    let p = s.a.insert_with(pn, |p| {
                        given = Some(p);
                        T::new(id)
                    });
                    let p = p.ok_or_else(|| format!("insert_with({pn:?}) refused"))?;
                    same!(given, Some(p), "pointer given to the creation function");
                    p
                };
                s.inserted(p, prev, next, id)?;
            }
            K::InsertStart => {
                let p = s.p(i);
                let q = s.a.insert_start(p, T::new(id)).map_err(|_| format!("insert_start({p:?}) refused"))?;
                s.inserted(q, None, Some(i), id)?;
            }
            K::InsertEnd => {
                let p = s.p(i);
                let q = s.a.insert_end(p, T::new(id)).map_err(|_| format!("insert_end({p:?}) refused"))?;
                s.inserted(q, Some(i), None, id)?;
            }
            K::Remove => {
                let p = s.p(i);
                let want = s.link(i);
                same!(s.a.remove(p), Some(want), "remove({p:?})");
                let l = s.b.live.remove(&i).unwrap().1;
                if l.prev != Some(i) {
                    if let Some(x) = l.prev {
                        s.m(x).next = l.next;
                    }
                    if let Some(x) = l.next {
                        s.m(x).prev = l.prev;
                    }
                }
                s.b.inc();
            }
            K::RemoveChain => {
                let p = s.p(i);
                let w = s.walk(i);
                same!(s.a.remove_chain(p), Some(w.len()), "remove_chain({p:?})");
                for x in w {
                    s.b.live.remove(&x);
                }
                s.b.inc();
            }
            K::Invalidate => {
                let p = s.p(i);
                let q = s.a.invalidate(p).ok_or_else(|| format!("invalidate({p:?}) refused a valid pointer"))?;
                s.b.inc();
                same!(q.raw().0, i, "slot of an invalidated link");
                s.b.reissue(i, q.raw())?;
            }
            K::ReplKeep => {
                let p = s.p(i);
                let old = s.a.replace_and_keep_gen(p, T::new(id)).map_err(|_| format!("replace_and_keep_gen({p:?}) refused"))?;
                same!(old.id(), s.m(i).id, "old element returned");
                s.m(i).id = id;
            }
            K::ReplUpd => {
                let p = s.p(i);
                let (old, q) =
                    s.a.replace_and_update_gen(p, T::new(id)).map_err(|_| format!("replace_and_update_gen({p:?}) refused"))?;
                same!(old.id(), s.m(i).id, "old element returned");
                s.m(i).id = id;
                s.b.inc();
                same!(q.raw().0, i, "slot of a replaced link");
                s.b.reissue(i, q.raw())?;
            }
            K::GetMut => {
                let p = s.p(i);
                s.a.get_mut(p).ok_or("get_mut refused a valid pointer")?.id = id;
                same!(s.a.get(p).map(|t| t.id()), Some(id), "element after writing through get_mut");
                s.a.get_link_mut(p).ok_or("get_link_mut refused a valid pointer")?.1.id = id + 100_000;
                s.m(i).id = id + 100_000;
            }
            K::Swap => {
                let (p, q) = (s.p(i), s.p(j));
                same!(s.a.swap(p, q), Some(()), "swap({p:?}, {q:?})");
                let (x, y) = (s.m(i).id, s.m(j).id);
                s.m(i).id = y;
                s.m(j).id = x;
            }
            K::Get2 => {
                let (p, q) = (s.p(i), s.p(j));
                let (li, lj) = (s.link(i), s.link(j));
                {
                    let (x, y) = s.a.get2_mut(p, q).ok_or("get2_mut refused two valid pointers")?;
                    same!((x.id(), y.id()), (li.2, lj.2), "get2_mut({p:?}, {q:?})");
                    x.id = id;
                    y.id = id + 100_000;
                }
                let (pn, x, qn, y) = s.a.get2_link_mut(p, q).ok_or("get2_link_mut refused two valid pointers")?;
                same!((pn, x.id()), ((li.0, li.1), id), "first of get2_link_mut({p:?}, {q:?})");
                same!((qn, y.id()), ((lj.0, lj.1), id + 100_000), "second of get2_link_mut({p:?}, {q:?})");
                x.id = id + 200_000;
                y.id = id + 300_000;
                s.m(i).id = id + 200_000;
                s.m(j).id = id + 300_000;
            }
            K::Connect => {
                let (p, q) = (s.p(i), s.p(j));
                same!(s.a.connect(p, q), Some(()), "connect({p:?}, {q:?})");
                s.m(i).next = Some(j);
                s.m(j).prev = Some(i);
            }
            K::BreakPrev => {
                let p = s.p(i);
                same!(s.a.break_prev(p), Some(()), "break_prev({p:?})");
                let u = s.m(i).prev.unwrap();
                s.m(i).prev = None;
                s.m(u).next = None;
            }
            K::BreakNext => {
                let p = s.p(i);
                same!(s.a.break_next(p), Some(()), "break_next({p:?})");
                let u = s.m(i).next.unwrap();
                s.m(i).next = None;
                s.m(u).prev = None;
            }
            K::Exchange => {
                let (p, q) = (s.p(i), s.p(j));
                same!(s.a.exchange_next(p, q), Some(()), "exchange_next({p:?}, {q:?})");
                let (d0, d1) = (s.m(i).next.unwrap(), s.m(j).next.unwrap());
                s.m(i).next = Some(d1);
                s.m(j).next = Some(d0);
                s.m(d0).prev = Some(j);
                s.m(d1).prev = Some(i);
            }
            K::Clear => {
                let w = !s.b.is_empty() as u64;
                s.a.clear();
                s.b.live.clear();
                s.gen_between(w, 1)?;
            }
            K::ClearShrink => {
                let w = !s.b.is_empty() as u64;
                s.a.clear_and_shrink();
                s.b.live.clear();
                s.b.cap = 0;
                s.gen_between(w, 1)?;
            }
            K::Compress | K::CompressWith | K::CompressRecaster => {
                let w = !s.b.is_empty() as u64;
                // chains by representative
                let mut chain_of: BTreeMap<usize, usize> = BTreeMap::new();
                for &x in s.b.live.keys() {
                    chain_of.insert(x, *s.walk(x).iter().min().unwrap());
                }
                let old = std::mem::take(&mut s.b.live);
                let mut map: Vec<(Raw, u32, Raw)> = vec![];
                match op.k {
                    K::Compress => s.a.compress_and_shrink(),
                    K::CompressWith => s.a.compress_and_shrink_with(|p, t, q| {
                        map.push((p.raw(), t.id(), q.raw()));
                        t.id += 1_000;
                    }),
                    _ => {
                        let r = s.a.compress_and_shrink_recaster();
                        for (p, q) in &r {
                            map.push((p.raw(), 0, q.raw()));
                        }
                        same!(
                            sorted(map.iter().map(|x| x.0).collect::<Vec<_>>()),
                            old.iter().map(|(i, (g, _))| (*i, *g)).collect::<Vec<_>>(),
                            "pointers with an image in the recaster"
                        );
                    }
                }
                s.b.cap = old.len();
                s.gen_between(w, 1)?;
                same!(s.a.capacity(), old.len(), "capacity() after compression");
                if op.k == K::Compress {
                    let now = s.a.iter();
                    for (i, (g, e)) in &old {
                        let q = now.iter().find(|(_, t)| t.2 == e.id).map(|x| x.0);
                        let q = q.ok_or_else(|| format!("compression lost element {}", e.id))?;
                        map.push(((*i, *g), e.id, q));
                    }
                }
                same!(map.len(), old.len(), "number of moved links reported by compression");
                let mut to: BTreeMap<usize, usize> = BTreeMap::new();
                for (p, e, q) in &map {
                    let Some((g, l)) = old.get(&p.0) else {
                        return Err(format!("compression reported {p:?}, which was not valid"));
                    };
                    same!(p.1, *g, "generation of the old pointer reported by compression");
                    if op.k != K::CompressRecaster {
                        same!(*e, l.id, "element reported by compression for {p:?}");
                    }
                    ensure!(to.insert(p.0, q.0).is_none(), "compression reported {p:?} twice");
                }
                for (p, _, q) in &map {
                    let l = &old[&p.0].1;
                    let nid = if op.k == K::CompressWith { l.id + 1_000 } else { l.id };
                    let nl = Lk { prev: l.prev.map(|x| to[&x]), next: l.next.map(|x| to[&x]), id: nid };
                    s.b.issue(*q, nl)?;
                }
                // whole chains at a time
                let contiguous = |order: &[usize]| -> R {
                    let mut seen: Vec<usize> = vec![];
                    for x in order {
                        if seen.last() != Some(x) {
                            ensure!(!seen.contains(x), "after compression the links of a chain are not visited together");
                            seen.push(*x);
                        }
                    }
                    Ok(())
                };
                let back: BTreeMap<usize, usize> = to.iter().map(|(k, v)| (*v, chain_of[k])).collect();
                let order: Vec<usize> = s.a.ptrs().iter().filter_map(|p| back.get(&p.raw().0).cloned()).collect();
                contiguous(&order)?;
                if op.k == K::CompressWith {
                    contiguous(&map.iter().map(|x| chain_of[&x.0 .0]).collect::<Vec<_>>())?;
                }
            }
            K::Reserve => {
                s.a.reserve(i);
                s.grown(s.b.len() + i)?;
            }
            K::Drain => {
                let old = s.pairs();
                s.b.live.clear();
                let got = s.a.drain_k(i);
                same!(got.len(), old.len().min(i), "number of links drained in {i} steps");
                let mut seen = vec![];
                for (r, l) in &got {
                    let o = old.iter().find(|x| x.0 == *r);
                    same!(o.map(|x| x.1 .2), Some(l.2), "drained {r:?}");
                    ensure!(!seen.contains(r), "drained {r:?} twice");
                    seen.push(*r);
                }
                s.gen_between(!old.is_empty() as u64, old.len() as u64 + 2)?;
            }
            K::FromIter => {
                let a = std::mem::replace(&mut s.a, C::new());
                let mut old = s.b.live.values().map(|(_, l)| l.id).collect::<Vec<_>>();
                let a = C::from_ids(a.into_ts());
                s.b = Book::new::<P>();
                s.b.cap = a.capacity();
                ensure!(s.b.cap >= old.len(), "capacity of a collected arena is below its length");
                for (r, l) in a.iter() {
                    let n = old.iter().position(|x| *x == l.2).ok_or("collecting made up an element")?;
                    old.remove(n);
                    s.b.issue(r, Lk { prev: None, next: None, id: l.2 })?;
                }
                ensure!(old.is_empty(), "collecting lost elements {old:?}");
                s.a = a;
                self.adv = None;
                self.cadv = None;
            }
            K::Reload => {
                let n = crate::ser::reload(&s.a, op.a as usize)?;
                let old = std::mem::replace(&mut s.b, Book::new::<P>());
                for (i, (_, e)) in old.live {
                    s.b.issue((i, s.b.gen), e)?;
                }
                s.a = n;
                s.b.cap = s.a.capacity();
                self.adv = None;
                self.cadv = None;
            }
            K::Clone | K::CloneKeep => {
                let c = s.a.clone();
                let cc = c.capacity();
                ensure!(
                    cc >= s.b.len() && cc <= s.b.cap,
                    "a clone has capacity {cc} (source: capacity {}, length {})",
                    s.b.cap,
                    s.b.len()
                );
                ensure!(c == s.a && s.a == c, "a clone is not equal to its source");
                if op.k == K::Clone {
                    s.b.cap = cc;
                    s.a = c;
                } else {
                    let mut b = s.b.clone();
                    b.cap = cc;
                    self.shadow = Some(Side { a: c, b, _p: PhantomData });
                }
            }
            K::ShadowFrom | K::ShadowFromWith => {
                let sh = self.shadow.as_mut().unwrap();
                let mut b = s.b.clone();
                if op.k == K::ShadowFrom {
                    sh.a.clone_from(&s.a);
                } else {
                    let mut seen = vec![];
                    sh.a.clone_from_with2(&s.a, |p, l| {
                        seen.push((p.raw(), l));
                        T::new(l.2 + 50_000)
                    });
                    same!(sorted(seen), s.pairs(), "links given to the mapping of clone_from_with");
                    for x in b.live.values_mut() {
                        x.1.id += 50_000;
                    }
                }
                let c = sh.a.capacity();
                ensure!(
                    c >= b.len() && c <= s.b.cap.max(sh.b.cap),
                    "clone_from gave capacity {c}; source {}, target {}, length {}",
                    s.b.cap,
                    sh.b.cap,
                    b.len()
                );
                b.cap = c;
                sh.b = b;
            }
            K::SwapShadow => {
                std::mem::swap(&mut self.s, self.shadow.as_mut().unwrap());
                self.adv = None;
                self.cadv = None;
            }
            K::AdvStart => {
                self.adv = Some(Adv { adv: s.a.adv(), seen: vec![], must: s.b.ptrs(), done: false });
            }
            K::AdvStep => {
                let mut adv = self.adv.take().unwrap();
                Self::adv_step(&mut adv, &self.s)?;
                self.adv = Some(adv);
            }
            K::CAdvStart => {
                let p = s.p(i);
                let expect = s.walk(i).into_iter().map(|x| s.b.raw(x)).collect();
                let links = s.chain(i);
                self.cadv = Some(CAdv {
                    adv: s.a.cadv(p),
                    init: p.raw(),
                    expect,
                    links,
                    pos: 0,
                    steps: 0,
                    len0: s.b.len(),
                    end: false,
                    around: None,
                    touched: false,
                    done: false,
                });
            }
            K::CAdvStep => {
                let mut c = self.cadv.take().unwrap();
                Self::cadv_step(&mut c, &self.s)?;
                self.cadv = Some(c);
            }
        }
        let bulk = matches!(
            op.k,
            K::Compress | K::CompressWith | K::CompressRecaster | K::Clear | K::ClearShrink | K::Drain
        );
        self.track();
        if bulk || op.k == K::Remove || op.k == K::RemoveChain || op.k == K::Invalidate {
            if let Some(c) = &mut self.cadv {
                if !P::HAS_GEN {
                    c.touched = true;
                }
            }
        }
        if bulk && !P::HAS_GEN {
            if let Some(a) = &mut self.adv {
                a.must.clear();
            }
        }
        Ok(())
    }

    fn observe(&mut self, cfg: &Cfg) -> R {
        self.s.observe(cfg.full)?;
        if let Some(sh) = &mut self.shadow {
            sh.observe(cfg.full).map_err(|e| format!("(other arena) {e}"))?;
            let want = self.s.pairs() == sh.pairs();
            same!(self.s.a == sh.a, want, "equality of two arenas");
            same!(sh.a == self.s.a, want, "equality of two arenas, the other way round");
        }
        let n = self.s.b.len() + self.shadow.as_ref().map(|s| s.b.len()).unwrap_or(0);
        crate::tv::check_live(n)
    }

    fn finish(mut self, cfg: &Cfg, key: &mut KeyHash) -> R {
        self.s.key(key, cfg.ages);
        if let Some(adv) = &mut self.adv {
            key.put(77);
            for r in &adv.seen {
                key.put(r.0 as u64);
                key.put(self.s.b.valid(*r) as u64);
            }
            key.put(78);
            for r in &adv.must {
                key.put(r.0 as u64);
            }
            key.put(adv.done as u64);
            let mut n = 0;
            while !adv.done && Self::adv_step(adv, &self.s)? {
                n += 1;
                ensure!(n <= self.s.b.cap + 1, "the advancer does not end");
            }
        }
        if let Some(c) = &mut self.cadv {
            key.put(79);
            key.put(c.init.0 as u64);
            key.put(self.s.b.valid(c.init) as u64);
            key.put(c.steps as u64);
            key.put(c.touched as u64 * 2 + c.done as u64);
            key.put(c.len0 as u64);
            if c.touched {
                // the position is not visible: keep these states apart by what determines it
                key.put(c.end as u64);
                if let Some(r) = &c.around {
                    key.put(r.0 as u64 * 2 + self.s.b.valid(*r) as u64);
                }
            }
            while !c.done && Self::cadv_step(c, &self.s)? {}
            key.put(c.steps as u64);
        }
        if cfg.full {
            let c = self.s.a.clone();
            ensure!(c == self.s.a, "a clone is not equal to its source");
            let n = self.s.b.len();
            let k = (n + 1) / 2;
            let got = c.consume_k(if n % 2 == 0 { k } else { n + 1 });
            same!(got.len(), if n % 2 == 0 { k } else { n }, "links handed out by consuming iteration");
            let mut seen = vec![];
            for (r, l) in &got {
                same!(self.s.b.get(*r).map(|l| l.id), Some(l.2), "link handed out by consuming iteration");
                ensure!(!seen.contains(r), "consuming iteration handed out {r:?} twice");
                seen.push(*r);
            }
            // into other kinds, over non-empty targets
            let mut tgt: Arena<P, u32> = Arena::new();
            for x in 0..(n as u32 % 4) {
                tgt.insert(x);
            }
            let mut seen = vec![];
            self.s.a.to_arena(&mut tgt, |p, l| {
                seen.push((p.raw(), l));
                l.2 + 7
            });
            let pairs = self.s.pairs();
            same!(sorted(seen), pairs, "links given to the mapping of clone_to_arena");
            same!(tgt.len(), n, "length of the arena made by clone_to_arena");
            for (r, l) in &pairs {
                same!(tgt.get(P::mk(*r)).copied(), Some(l.2 + 7), "element of the arena made by clone_to_arena");
            }
            same!(P::rawgen(tgt.generation()), self.s.b.gen, "generation of the arena made by clone_to_arena");
            Arena::_check_invariants(&tgt).map_err(|e| format!("clone_to_arena: {e}"))?;
            let mut ct: ChainArena<P, u32> = ChainArena::new();
            for x in 0..(n as u32 % 3) {
                ct.insert_new_cyclic(x);
            }
            if self.s.a.to_chain(&mut ct, |_, e| e + 9) {
                same!(ct.len(), n, "length of the arena made by clone_to_chain_arena");
                for (i, (g, l)) in &self.s.b.live {
                    let full = |i: Option<usize>| i.map(|i| P::mk(self.s.b.raw(i)));
                    let got = ct.get_link(P::mk((*i, *g))).map(|l| (l.prev(), l.next(), l.t));
                    same!(got, Some((full(l.prev), full(l.next), l.id + 9)), "link of the arena made by clone_to_chain_arena");
                }
                same!(P::rawgen(ct.generation()), self.s.b.gen, "generation of the arena made by clone_to_chain_arena");
                ChainArena::_check_invariants(&ct).map_err(|e| format!("clone_to_chain_arena: {e}"))?;
            }
        }
        self.s.fill(key)?;
        if let Some(sh) = &mut self.shadow {
            sh.key(key, cfg.ages);
            sh.fill(key)?;
        }
        let ChainWorld { s, shadow, .. } = self;
        drop(s.a);
        if let Some(sh) = shadow {
            for (r, l) in sh.pairs() {
                same!(sh.a.get_link(P::mk(r)), Some(l), "link of the other arena after a drop");
            }
        }
        Ok(())
    }
}
