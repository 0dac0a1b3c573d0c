//! A uniform view of the five arena kinds, for checks in which the relations between elements do not
//! matter, only pointers, generations and capacities.

use crate::engine::{KeyHash, R};
use crate::px::*;
use crate::tv::Tv;
use std::cmp::Ordering;
use triple_arena::utils::{ChainNoGenArena, PtrInx};
use triple_arena::{Advancer, Arena, ChainArena, OrdArena, SurjectArena};

pub type T = Tv<0>;

/// What an operation does to pointers
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Eff {
    /// the element of the pointer is gone
    Gone,
    /// the element has a new pointer
    Moved,
    /// the element is replaced and has a new pointer
    Replaced,
    /// the whole chain or set of the pointer is gone
    SetGone,
    /// nothing is left
    AllGone,
    /// nothing is left, one or more increments
    Drained,
    /// all elements have new pointers
    AllMoved,
}
use Eff::*;

pub trait Kind<P: Px>: Sized {
    const NAME: &'static str;
    const INS: &'static [&'static str];
    const INV: &'static [(&'static str, Eff)];
    const NON: &'static [&'static str];
    fn new() -> Self;
    fn len(&self) -> usize;
    fn cap(&self) -> usize;
    fn gen(&self) -> u64;
    fn has(&self, p: P) -> bool;
    fn id(&self, p: P) -> Option<u32>;
    /// by advancer
    fn ptrs(&self) -> Vec<P>;
    fn with_cap(n: usize) -> Self;
    fn reserve(&mut self, n: usize);
    /// `None` if the variant cannot be used
    fn ins(&mut self, v: usize, id: u32, anchor: Option<P>) -> Option<P>;
    fn inv(&mut self, v: usize, p: P, id: u32) -> R<Option<P>>;
    fn non(&mut self, v: usize, p: P, q: P) -> R;
    /// pointers of the chain or set that `p` is in
    fn set(&self, p: P) -> Vec<P>;
    /// the relations between the elements, as indexes
    fn shape(&self, k: &mut KeyHash);
    fn sane(&self) -> Result<(), &'static str>;
    /// number of tracked values it should hold
    fn values(&self) -> usize;
    fn cl(&self) -> Self;
    fn cl_from(&mut self, o: &Self);
    fn eat(self) -> Vec<(P, u32)>;
}

fn inx<P: Px>(p: P) -> u64 {
    PtrInx::get(p.inx()).get() as u64
}

fn refused<X>(r: Option<X>) -> R {
    match r {
        None => Ok(()),
        Some(_) => Err("an invalid pointer was accepted".into()),
    }
}

impl<P: Px> Kind<P> for Arena<P, T> {
    const NAME: &'static str = "arena";
    const INS: &'static [&'static str] = &["insert", "insert_with"];
    const INV: &'static [(&'static str, Eff)] = &[
        ("remove", Gone),
        ("invalidate", Moved),
        ("replace_and_update_gen", Replaced),
        ("remove_by", Gone),
        ("clear", AllGone),
        ("clear_and_shrink", AllGone),
        ("compress_and_shrink", AllMoved),
        ("compress_and_shrink_recaster", AllMoved),
        ("drain, abandoned", Drained),
        ("drain, complete", Drained),
    ];
    const NON: &'static [&'static str] =
        &["replace_and_keep_gen", "swap", "get2_mut", "reserve(1)", "clone", "remove of nothing", "invalidate of nothing"];
    fn new() -> Self {
        Arena::new()
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn gen(&self) -> u64 {
        P::rawgen(self.generation())
    }
    fn has(&self, p: P) -> bool {
        self.contains(p)
    }
    fn id(&self, p: P) -> Option<u32> {
        self.get(p).map(|t| t.id())
    }
    fn ptrs(&self) -> Vec<P> {
        let mut adv = self.advancer();
        let mut v = vec![];
        while let Some(p) = adv.advance(self) {
            v.push(p);
            if v.len() > self.capacity() + 9 {
                break;
            }
        }
        v
    }
    fn with_cap(n: usize) -> Self {
        Self::with_capacity(n)
    }
    fn reserve(&mut self, n: usize) {
        self.reserve(n)
    }
    fn ins(&mut self, v: usize, id: u32, _: Option<P>) -> Option<P> {
        Some(match v {
            0 => self.insert(T::new(id)),
            _ => self.insert_with(|_| T::new(id)),
        })
    }
    fn inv(&mut self, v: usize, p: P, id: u32) -> R<Option<P>> {
        match v {
            0 => {
                self.remove(p).ok_or("remove refused")?;
            }
            1 => return Ok(Some(self.invalidate(p).ok_or("invalidate refused")?)),
            2 => return Ok(Some(self.replace_and_update_gen(p, T::new(id)).map_err(|_| "replace refused")?.1)),
            3 => self.remove_by(|q, _| p == q),
            4 => self.clear(),
            5 => self.clear_and_shrink(),
            6 => self.compress_and_shrink(),
            7 => {
                self.compress_and_shrink_recaster();
            }
            8 => drop(self.drain()),
            _ => self.drain().for_each(drop),
        }
        Ok(None)
    }
    fn non(&mut self, v: usize, p: P, q: P) -> R {
        match v {
            0 => {
                let id = self.id(p).ok_or("get refused")?;
                self.replace_and_keep_gen(p, T::new(id)).map_err(|_| "replace refused")?;
            }
            1 => self.swap(p, q).ok_or("swap refused")?,
            2 => {
                let _ = self.get2_mut(p, q);
            }
            3 => self.reserve(1),
            4 => *self = self.clone(),
            5 => refused(self.remove(P::invalid()))?,
            _ => refused(self.invalidate(P::invalid()))?,
        }
        Ok(())
    }
    fn set(&self, p: P) -> Vec<P> {
        vec![p]
    }
    fn shape(&self, _: &mut KeyHash) {}
    fn sane(&self) -> Result<(), &'static str> {
        Arena::_check_invariants(self)
    }
    fn values(&self) -> usize {
        self.len()
    }
    fn cl(&self) -> Self {
        self.clone()
    }
    fn cl_from(&mut self, o: &Self) {
        self.clone_from(o)
    }
    fn eat(self) -> Vec<(P, u32)> {
        self.into_iter().map(|(p, t)| (p, t.id())).collect()
    }
}

macro_rules! chain_kind {
    ($t:ident, $name:expr, $n:expr, $i:expr) => {
        impl<P: Px> Kind<P> for $t<P, T> {
            const NAME: &'static str = $name;
            const INS: &'static [&'static str] = &[
                "insert alone",
                "insert after",
                "insert before",
                "insert_with alone",
                "insert_with after",
                "insert_with before",
                "insert_new",
                "insert_new_with",
                "insert_new_cyclic",
                "insert_new_cyclic_with",
                "insert_start",
                "insert_end",
                "insert between",
                "insert_with between",
            ];
            const INV: &'static [(&'static str, Eff)] = &[
                ("remove", Gone),
                ("invalidate", Moved),
                ("replace_and_update_gen", Replaced),
                ("remove_chain", SetGone),
                ("clear", AllGone),
                ("clear_and_shrink", AllGone),
                ("compress_and_shrink", AllMoved),
                ("compress_and_shrink_recaster", AllMoved),
                ("drain, abandoned", Drained),
                ("drain, complete", Drained),
            ];
            const NON: &'static [&'static str] = &[
                "replace_and_keep_gen",
                "swap",
                "get2_mut",
                "reserve(1)",
                "clone",
                "remove of nothing",
                "remove_chain of nothing",
                "invalidate of nothing",
                "connect",
                "break_prev",
                "break_next",
                "exchange_next",
            ];
            fn new() -> Self {
                $t::new()
            }
            fn len(&self) -> usize {
                self.len()
            }
            fn cap(&self) -> usize {
                self.capacity()
            }
            fn gen(&self) -> u64 {
                P::rawgen(self.generation())
            }
            fn has(&self, p: P) -> bool {
                self.contains(p)
            }
            fn id(&self, p: P) -> Option<u32> {
                self.get(p).map(|t| t.id())
            }
            fn ptrs(&self) -> Vec<P> {
                let mut adv = self.advancer();
                let mut v = vec![];
                while let Some(p) = adv.advance(self) {
                    v.push(p);
                    if v.len() > self.capacity() + 9 {
                        break;
                    }
                }
                v
            }
            fn with_cap(n: usize) -> Self {
                Self::with_capacity(n)
            }
            fn reserve(&mut self, n: usize) {
                self.reserve(n)
            }
            fn ins(&mut self, v: usize, id: u32, anchor: Option<P>) -> Option<P> {
                let n = |p: P| ($n)(p);
                let t = || T::new(id);
                match v {
                    0 => return self.insert((None, None), t()).ok(),
                    3 => return self.insert_with((None, None), |_| t()),
                    6 => return Some(self.insert_new(t())),
                    7 => return Some(self.insert_new_with(|_| t())),
                    8 => return Some(self.insert_new_cyclic(t())),
                    9 => return Some(self.insert_new_cyclic_with(|_| t())),
                    _ => (),
                }
                let a = anchor?;
                match v {
                    1 => self.insert((Some(n(a)), None), t()).ok(),
                    2 => self.insert((None, Some(n(a))), t()).ok(),
                    4 => self.insert_with((Some(n(a)), None), |_| t()),
                    5 => self.insert_with((None, Some(n(a))), |_| t()),
                    10 => {
                        if self.get_link(a)?.prev().is_some() {
                            return None;
                        }
                        self.insert_start(a, t()).ok()
                    }
                    11 => {
                        if self.get_link(a)?.next().is_some() {
                            return None;
                        }
                        self.insert_end(a, t()).ok()
                    }
                    _ => {
                        let b = self.get_link(a)?.next()?;
                        if v == 12 {
                            self.insert((Some(n(a)), Some(b)), t()).ok()
                        } else {
                            self.insert_with((Some(n(a)), Some(b)), |_| t())
                        }
                    }
                }
            }
            fn inv(&mut self, v: usize, p: P, id: u32) -> R<Option<P>> {
                match v {
                    0 => {
                        self.remove(p).ok_or("remove refused")?;
                    }
                    1 => return Ok(Some(self.invalidate(p).ok_or("invalidate refused")?)),
                    2 => {
                        return Ok(Some(self.replace_and_update_gen(p, T::new(id)).map_err(|_| "replace refused")?.1))
                    }
                    3 => {
                        self.remove_chain(p).ok_or("remove_chain refused")?;
                    }
                    4 => self.clear(),
                    5 => self.clear_and_shrink(),
                    6 => self.compress_and_shrink(),
                    7 => {
                        self.compress_and_shrink_recaster();
                    }
                    8 => drop(self.drain()),
                    _ => self.drain().for_each(drop),
                }
                Ok(None)
            }
            fn non(&mut self, v: usize, p: P, q: P) -> R {
                match v {
                    0 => {
                        let id = self.id(p).ok_or("get refused")?;
                        self.replace_and_keep_gen(p, T::new(id)).map_err(|_| "replace refused")?;
                    }
                    1 => self.swap(p, q).ok_or("swap refused")?,
                    2 => {
                        let _ = self.get2_mut(p, q);
                    }
                    3 => self.reserve(1),
                    4 => *self = self.clone(),
                    5 => refused(self.remove(P::invalid()))?,
                    6 => refused(self.remove_chain(P::invalid()))?,
                    7 => refused(self.invalidate(P::invalid()))?,
                    8 => {
                        let _ = self.connect(p, q);
                    }
                    9 => {
                        let _ = self.break_prev(p);
                    }
                    10 => {
                        let _ = self.break_next(p);
                    }
                    _ => {
                        let _ = self.exchange_next(p, q);
                    }
                }
                Ok(())
            }
            fn set(&self, p: P) -> Vec<P> {
                self.iter_chain(($n)(p)).map(|x| x.0).collect()
            }
            fn shape(&self, k: &mut KeyHash) {
                let i = $i;
                for (p, l) in self.iter() {
                    k.put(inx(p));
                    k.put(l.prev().map_or(0, i));
                    k.put(l.next().map_or(0, i));
                }
            }
            fn sane(&self) -> Result<(), &'static str> {
                $t::_check_invariants(self)
            }
            fn values(&self) -> usize {
                self.len()
            }
            fn cl(&self) -> Self {
                self.clone()
            }
            fn cl_from(&mut self, o: &Self) {
                self.clone_from(o)
            }
            fn eat(self) -> Vec<(P, u32)> {
                self.capacity_drain().map(|(p, l)| (p, l.t.id())).collect()
            }
        }
    };
}
chain_kind!(ChainArena, "chain", |p: P| p, |x: P| inx::<P>(x));
chain_kind!(ChainNoGenArena, "nogen-chain", |p: P| p.inx(), |x: P::Inx| PtrInx::get(x).get() as u64);

/// keys begin in the middle so that there is room for smaller and larger ones
pub type OrdK = u64;

pub trait OrdKey: Ord + Clone {
    const TRACKED: usize;
    fn key(x: u64) -> Self;
    fn num(&self) -> u64;
}
impl OrdKey for u64 {
    const TRACKED: usize = 0;
    fn key(x: u64) -> Self {
        x
    }
    fn num(&self) -> u64 {
        *self
    }
}
impl OrdKey for T {
    const TRACKED: usize = 1;
    fn key(x: u64) -> Self {
        T::new(x as u32)
    }
    fn num(&self) -> u64 {
        self.id() as u64
    }
}

impl<P: Px, K: OrdKey> Kind<P> for OrdArena<P, K, T> {
    const NAME: &'static str = "ord";
    const INS: &'static [&'static str] = &[
        "insert largest",
        "insert smallest",
        "insert_nonhereditary largest",
        "insert_nonhereditary equal",
        "insert_linear near, largest",
        "insert_linear none, smallest",
        "insert_nonhereditary_linear equal",
        "manual before",
        "manual after",
    ];
    const INV: &'static [(&'static str, Eff)] = &[
        ("remove", Gone),
        ("invalidate", Moved),
        ("replace_val_and_update_gen", Replaced),
        ("clear", AllGone),
        ("clear_and_shrink", AllGone),
        ("compress_and_shrink", AllMoved),
        ("compress_and_shrink_recaster", AllMoved),
        ("drain, abandoned", Drained),
        ("drain, complete", Drained),
    ];
    const NON: &'static [&'static str] = &[
        "replace_val_and_keep_gen",
        "swap_vals",
        "get2_val_mut",
        "reserve(1)",
        "clone",
        "remove of nothing",
        "invalidate of nothing",
        "insert of an equal key",
    ];
    fn new() -> Self {
        OrdArena::new()
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn gen(&self) -> u64 {
        P::rawgen(self.generation())
    }
    fn has(&self, p: P) -> bool {
        self.contains(p)
    }
    fn id(&self, p: P) -> Option<u32> {
        self.get_val(p).map(|t| t.id())
    }
    fn ptrs(&self) -> Vec<P> {
        let mut adv = self.advancer();
        let mut v = vec![];
        while let Some(p) = adv.advance(self) {
            v.push(p);
            if v.len() > self.capacity() + 9 {
                break;
            }
        }
        v
    }
    fn with_cap(n: usize) -> Self {
        Self::with_capacity(n)
    }
    fn reserve(&mut self, n: usize) {
        self.reserve(n)
    }
    fn ins(&mut self, v: usize, id: u32, anchor: Option<P>) -> Option<P> {
        let lo = self.first().map_or(1 << 20, |p| self.get_key(p).unwrap().num());
        let hi = self.last().map_or(1 << 20, |p| self.get_key(p).unwrap().num());
        let t = || T::new(id);
        match v {
            0 => return Some(self.insert(K::key(hi + 1), t()).0),
            1 => return Some(self.insert(K::key(lo - 1), t()).0),
            2 => return Some(self.insert_nonhereditary(K::key(hi + 1), t())),
            5 => return Some(self.insert_linear(P::invalid(), 3, K::key(lo - 1), t()).0),
            _ => (),
        }
        let a = anchor?;
        let k = K::key(self.get_key(a)?.num());
        Some(match v {
            3 => self.insert_nonhereditary(k, t()),
            4 => self.insert_linear(a, 2, K::key(hi + 1), t()).0,
            6 => self.insert_nonhereditary_linear(a, 1, k, t()),
            7 => self.insert_inx_manual_unwrap(a.inx(), Ordering::Less, k, t()).0,
            _ => self.insert_inx_manual_unwrap(a.inx(), Ordering::Greater, k, t()).0,
        })
    }
    fn inv(&mut self, v: usize, p: P, id: u32) -> R<Option<P>> {
        match v {
            0 => {
                self.remove(p).ok_or("remove refused")?;
            }
            1 => return Ok(Some(self.invalidate(p).ok_or("invalidate refused")?)),
            2 => return Ok(Some(self.replace_val_and_update_gen(p, T::new(id)).map_err(|_| "replace refused")?.1)),
            3 => self.clear(),
            4 => self.clear_and_shrink(),
            5 => self.compress_and_shrink(),
            6 => {
                self.compress_and_shrink_recaster();
            }
            7 => drop(self.drain()),
            _ => self.drain().for_each(drop),
        }
        Ok(None)
    }
    fn non(&mut self, v: usize, p: P, q: P) -> R {
        match v {
            0 => {
                let id = self.id(p).ok_or("get refused")?;
                self.replace_val_and_keep_gen(p, T::new(id)).map_err(|_| "replace refused")?;
            }
            1 => self.swap_vals(p, q).ok_or("swap refused")?,
            2 => {
                let _ = self.get2_val_mut(p, q);
            }
            3 => self.reserve(1),
            4 => *self = self.clone(),
            5 => refused(self.remove(P::invalid()))?,
            6 => refused(self.invalidate(P::invalid()))?,
            _ => {
                let (id, k) = (self.id(p).ok_or("get refused")?, self.get_key(p).ok_or("get_key refused")?.num());
                let _ = self.insert(K::key(k), T::new(id));
            }
        }
        Ok(())
    }
    fn set(&self, p: P) -> Vec<P> {
        vec![p]
    }
    fn shape(&self, k: &mut KeyHash) {
        for (p, key, _) in self.iter() {
            k.put(inx(p));
            // which keys are equal
            k.put(self.get_link(p).and_then(|l| l.next()).map_or(2, |n| (self.get_key(n) == Some(key)) as u64));
        }
    }
    fn sane(&self) -> Result<(), &'static str> {
        OrdArena::_check_invariants(self)
    }
    fn values(&self) -> usize {
        self.len() * (1 + K::TRACKED)
    }
    fn cl(&self) -> Self {
        self.clone()
    }
    fn cl_from(&mut self, o: &Self) {
        self.clone_from(o)
    }
    fn eat(self) -> Vec<(P, u32)> {
        self.into_iter().map(|(p, _, t)| (p, t.id())).collect()
    }
}

impl<P: Px> Kind<P> for SurjectArena<P, T, T> {
    const NAME: &'static str = "surject";
    const INS: &'static [&'static str] = &["insert", "insert_with", "insert_key", "insert_key_with"];
    const INV: &'static [(&'static str, Eff)] = &[
        ("remove_key", Gone),
        ("invalidate", Moved),
        ("remove", SetGone),
        ("clear", AllGone),
        ("clear_and_shrink", AllGone),
        ("compress_and_shrink", AllMoved),
        ("compress_and_shrink_recaster", AllMoved),
    ];
    const NON: &'static [&'static str] = &[
        "union",
        "swap_keys",
        "swap_vals",
        "get2_mut",
        "reserve_keys(1)",
        "reserve_vals(1)",
        "clone",
        "remove of nothing",
        "remove_key of nothing",
        "invalidate of nothing",
    ];
    fn new() -> Self {
        SurjectArena::new()
    }
    fn len(&self) -> usize {
        self.len_keys()
    }
    fn cap(&self) -> usize {
        self.capacity_keys()
    }
    fn gen(&self) -> u64 {
        P::rawgen(self.generation())
    }
    fn has(&self, p: P) -> bool {
        self.contains(p)
    }
    fn id(&self, p: P) -> Option<u32> {
        self.get_val(p)?.id();
        self.get_key(p).map(|t| t.id())
    }
    fn ptrs(&self) -> Vec<P> {
        let mut adv = self.advancer();
        let mut v = vec![];
        while let Some(p) = adv.advance(self) {
            v.push(p);
            if v.len() > self.capacity_keys() + 9 {
                break;
            }
        }
        v
    }
    fn with_cap(n: usize) -> Self {
        Self::with_capacity(n, 3)
    }
    fn reserve(&mut self, n: usize) {
        self.reserve_keys(n)
    }
    fn ins(&mut self, v: usize, id: u32, anchor: Option<P>) -> Option<P> {
        match v {
            0 => Some(self.insert(T::new(id), T::new(id))),
            1 => Some(self.insert_with(|_| (T::new(id), T::new(id)))),
            2 => self.insert_key(anchor?, T::new(id)).ok(),
            _ => self.insert_key_with(anchor?, |_| T::new(id)),
        }
    }
    fn inv(&mut self, v: usize, p: P, _: u32) -> R<Option<P>> {
        match v {
            0 => {
                self.remove_key(p).ok_or("remove_key refused")?;
            }
            1 => return Ok(Some(self.invalidate(p).ok_or("invalidate refused")?)),
            2 => {
                self.remove(p).ok_or("remove refused")?;
            }
            3 => self.clear(),
            4 => self.clear_and_shrink(),
            5 => self.compress_and_shrink(),
            _ => {
                self.compress_and_shrink_recaster();
            }
        }
        Ok(None)
    }
    fn non(&mut self, v: usize, p: P, q: P) -> R {
        match v {
            0 => {
                let _ = self.union(p, q);
            }
            1 => self.swap_keys(p, q).ok_or("swap refused")?,
            2 => self.swap_vals(p, q).ok_or("swap refused")?,
            3 => {
                let _ = self.get2_mut(p, q);
            }
            4 => self.reserve_keys(1),
            5 => {
                // there may be an increase each time
                if self.capacity_vals() < 2 {
                    self.reserve_vals(1)
                }
            }
            6 => *self = self.clone(),
            7 => refused(self.remove(P::invalid()))?,
            8 => refused(self.remove_key(P::invalid()))?,
            _ => refused(self.invalidate(P::invalid()))?,
        }
        Ok(())
    }
    fn set(&self, p: P) -> Vec<P> {
        self.iter_surject(p).map(|x| x.0).collect()
    }
    fn shape(&self, k: &mut KeyHash) {
        k.put(self.capacity_vals() as u64);
        for p in self.ptrs() {
            k.put(inx(p));
            for q in self.set(p) {
                k.put(inx(q));
            }
            k.put(0);
        }
    }
    fn sane(&self) -> Result<(), &'static str> {
        SurjectArena::_check_invariants(self)
    }
    fn values(&self) -> usize {
        self.len_keys() + self.len_vals()
    }
    fn cl(&self) -> Self {
        self.clone()
    }
    fn cl_from(&mut self, o: &Self) {
        self.clone_from(o)
    }
    fn eat(self) -> Vec<(P, u32)> {
        self.iter().map(|(p, k, _)| (p, k.id())).collect()
    }
}
