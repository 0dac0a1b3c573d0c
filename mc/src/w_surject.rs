//! The surject arena against an explicit partition.

use crate::book::Book;
use crate::engine::*;
use crate::px::*;
use crate::tv::{self, Tv};
use crate::{ensure, same};
use std::collections::BTreeMap;
use std::fmt;
use triple_arena::utils::{ChainNoGenArena, PtrInx};
use triple_arena::{Advancer, Arena, ChainArena, SurjectArena};

pub type Kt = Tv<0>;
pub type Vt = Tv<5>;

#[derive(Clone, Copy, PartialEq, Eq)]
#[repr(C)]
pub struct Op {
    pub k: K,
    pub a: u16,
    pub b: u16,
}
impl fmt::Debug for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}({},{})", self.k, self.a, self.b)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u16)]
pub enum K {
    Insert,
    InsertWith,
    InsertKey,
    InsertKeyWith,
    Union,
    RemoveKey,
    Remove,
    Invalidate,
    SwapKeys,
    SwapVals,
    GetMut,
    Get2,
    Clear,
    ClearShrink,
    Compress,
    CompressWith,
    CompressRecaster,
    ReserveKeys,
    ReserveVals,
    Clone,
    CloneKeep,
    ShadowFrom,
    ShadowFromWith,
    SwapShadow,
    AdvStart,
    AdvStep,
    SAdvStart,
    SAdvStep,
    Reload,
}

pub const G_INV: u32 = 1;
pub const G_SWAP: u32 = 4;
pub const G_REMOVE: u32 = 8;
pub const G_RELOAD: u32 = 1 << 20;
pub const G_REMOVE_SET: u32 = 16;
pub const G_MUT: u32 = 32;
pub const G_BULK: u32 = 128;
pub const G_SHRINK: u32 = 256;
pub const G_RESERVE: u32 = 512;
pub const G_CLONE: u32 = 2048;
pub const G_SHADOW: u32 = 4096;
pub const G_ADV: u32 = 8192;
pub const G_SADV: u32 = 1 << 14;
pub const G_WITH: u32 = 1 << 15;

pub struct Cfg {
    pub groups: u32,
    pub max_cap: usize,
    pub ages: bool,
    pub inert: bool,
    pub full: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub kid: u32,
    pub set: u32,
}

pub struct Side<P: Px> {
    pub a: SurjectArena<P, Kt, Vt>,
    pub b: Book<Ent>,
    /// set -> value
    pub sets: BTreeMap<u32, u32>,
    pub vcap: usize,
}

impl<P: Px> Side<P> {
    fn copy_model(&self) -> (Book<Ent>, BTreeMap<u32, u32>, usize) {
        (self.b.clone(), self.sets.clone(), self.vcap)
    }
}

struct Adv<P: Px> {
    adv: triple_arena::surject_iterators::PtrAdvancer<P, Kt, Vt>,
    seen: Vec<Raw>,
    must: Vec<Raw>,
    done: bool,
}

struct SAdv<P: Px> {
    adv: triple_arena::surject_iterators::SurjectPtrAdvancer<P, Kt, Vt>,
    init: Raw,
    seen: Vec<Raw>,
    must: Vec<Raw>,
    /// the set was changed in a way that is not supported (or only loosely specified)
    loose: bool,
    steps: usize,
    len0: usize,
    done: bool,
}

pub struct SurjectWorld<P: Px> {
    pub s: Side<P>,
    shadow: Option<Side<P>>,
    next: u32,
    adv: Option<Adv<P>>,
    sadv: Option<SAdv<P>>,
}

fn sorted<X: Ord>(mut v: Vec<X>) -> Vec<X> {
    v.sort();
    v
}

impl<P: Px> Side<P> {
    pub fn n(&self) -> usize {
        self.b.len()
    }
    fn p(&self, i: usize) -> P {
        P::mk(self.b.raw(i))
    }
    fn set(&self, i: usize) -> u32 {
        self.b.live[&i].1.set
    }
    fn val(&self, i: usize) -> u32 {
        self.sets[&self.set(i)]
    }
    fn members(&self, set: u32) -> Vec<usize> {
        self.b.live.iter().filter(|x| x.1 .1.set == set).map(|x| *x.0).collect()
    }
    fn size(&self, set: u32) -> usize {
        self.b.live.values().filter(|x| x.1.set == set).count()
    }
    fn triples(&self) -> Vec<(Raw, u32, u32)> {
        self.b.live.iter().map(|(i, (g, e))| ((*i, *g), e.kid, self.sets[&e.set])).collect()
    }

    fn next_of(&self, i: usize) -> Option<usize> {
        let (_, l) = self.a.get_link_no_gen(P::mkinx(i))?;
        Some(PtrInx::get(l.next()?).get())
    }

    fn observe(&mut self, cfg: &Cfg) -> R {
        let n = self.n();
        same!(self.a.len_keys(), n, "len_keys()");
        same!(self.a.len_vals(), self.sets.len(), "len_vals()");
        same!(self.a.is_empty(), n == 0, "is_empty()");
        same!(self.a.capacity_keys(), self.b.cap, "capacity_keys()");
        same!(self.a.capacity_vals(), self.vcap, "capacity_vals()");
        same!(P::rawgen(self.a.generation()), self.b.gen, "generation()");
        let tr = self.triples();
        let mut got: Vec<_> = self.a.iter().map(|(p, k, v)| (p.raw(), k.id(), v.id())).collect();
        same!(sorted(std::mem::take(&mut got)), tr, "iter()");
        for (r, k, v) in &tr {
            let p = P::mk(*r);
            let i = r.0;
            let set = self.set(i);
            ensure!(self.a.contains(p), "contains({p:?}) is false for a live key");
            same!(self.a.get(p).map(|(k, v)| (k.id(), v.id())), Some((*k, *v)), "get({p:?})");
            same!(self.a.get_key(p).map(|k| k.id()), Some(*k), "get_key({p:?})");
            same!(self.a.get_val(p).map(|k| k.id()), Some(*v), "get_val({p:?})");
            same!(self.a.len_key_set(p).map(|x| x.get()), Some(self.size(set)), "len_key_set({p:?})");
            let mem: Vec<(Raw, u32, u32)> = self.members(set).iter().map(|i| (self.b.raw(*i), self.b.live[i].1.kid, *v)).collect();
            let got: Vec<_> = self.a.iter_surject(p).take(2 * n + 2).map(|(p, k, v)| (p.raw(), k.id(), v.id())).collect();
            same!(sorted(got), mem, "iter_surject({p:?})");
            let mut adv = self.a.advancer_surject(p);
            let mut got = vec![];
            while let Some(q) = adv.advance(&self.a) {
                got.push(q.raw());
                ensure!(got.len() <= n, "advancer_surject({p:?}) does not end");
            }
            same!(sorted(got), mem.iter().map(|x| x.0).collect::<Vec<_>>(), "advancer_surject({p:?})");
            // the interlinks go round the set
            let mut at = i;
            let mut round = vec![];
            loop {
                round.push(at);
                let (g, l) = self.a.get_link_no_gen(P::mkinx(at)).ok_or_else(|| format!("get_link_no_gen({at}) of a live key"))?;
                same!((at, P::rawgen(g)), self.b.raw(at), "generation given by get_link_no_gen({at})");
                same!(l.t.id(), self.b.live[&at].1.kid, "key given by get_link_no_gen({at})");
                let nx = l.next().map(|x| PtrInx::get(x).get()).ok_or("an interlink of a set is missing")?;
                let back = self.a.get_link_no_gen(P::mkinx(nx)).and_then(|x| x.1.prev()).map(|x| PtrInx::get(x).get());
                same!(back, Some(at), "interlink back from {nx}");
                at = nx;
                if at == i {
                    break;
                }
                ensure!(round.len() <= n, "the interlinks from {i} do not come back");
            }
            same!(sorted(round), self.members(set), "keys reached by interlinks from {p:?}");
            for (r2, _, _) in &tr {
                same!(self.a.in_same_set(p, P::mk(*r2)), Some(set == self.set(r2.0)), "in_same_set({p:?}, {r2:?})");
            }
        }
        SurjectArena::_check_invariants(&self.a).map_err(|e| format!("internal invariants: {e}"))?;
        if !cfg.full {
            return Ok(());
        }
        same!(sorted(self.a.ptrs().map(|p| p.raw()).collect()), tr.iter().map(|x| x.0).collect::<Vec<_>>(), "ptrs()");
        let order: Vec<u32> = self.a.iter().map(|(_, k, _)| k.id()).collect();
        same!(self.a.keys().map(|k| k.id()).collect::<Vec<_>>(), order, "keys()");
        same!(self.a.keys_mut().map(|k| k.id()).collect::<Vec<_>>(), order, "keys_mut()");
        let vals = sorted(self.sets.values().cloned().collect());
        same!(sorted(self.a.vals().map(|k| k.id()).collect()), vals, "vals()");
        same!(sorted(self.a.vals_mut().map(|k| k.id()).collect()), vals, "vals_mut()");
        let got: Vec<_> = (&self.a).into_iter().map(|(p, k, v)| (p.raw(), k.id(), v.id())).collect();
        same!(sorted(got), tr, "into_iter() of a reference");
        let ps: Vec<P> = tr.iter().map(|x| P::mk(x.0)).collect();
        for (x, p) in ps.iter().enumerate() {
            let (p, (_, k, v)) = (*p, &tr[x]);
            same!(self.a.get_key_mut(p).map(|k| k.id()), Some(*k), "get_key_mut({p:?})");
            same!(self.a.get_val_mut(p).map(|k| k.id()), Some(*v), "get_val_mut({p:?})");
            same!(self.a.get_mut(p).map(|(k, v)| (k.id(), v.id())), Some((*k, *v)), "get_mut({p:?})");
            ensure!(self.a.get2_key_mut(p, p).is_none(), "get2_key_mut of a pointer with itself");
            for (y, q) in ps.iter().enumerate() {
                let (q, (_, k2, v2)) = (*q, &tr[y]);
                let diff = self.set(tr[x].0 .0) != self.set(tr[y].0 .0);
                let g = self.a.get2_key_mut(p, q).map(|(a, b)| (a.id(), b.id()));
                same!(g, (x != y).then_some((*k, *k2)), "get2_key_mut({p:?}, {q:?})");
                let g = self.a.get2_val_mut(p, q).map(|(a, b)| (a.id(), b.id()));
                same!(g, diff.then_some((*v, *v2)), "get2_val_mut({p:?}, {q:?})");
                let g = self.a.get2_mut(p, q).map(|(a, b)| (a.0.id(), a.1.id(), b.0.id(), b.1.id()));
                same!(g, diff.then_some((*k, *v, *k2, *v2)), "get2_mut({p:?}, {q:?})");
                if !diff {
                    ensure!(self.a.union(p, q).is_none(), "union({p:?}, {q:?}) within one set did something");
                    same!(self.a.swap_vals(p, q), Some(()), "swap_vals({p:?}, {q:?}) within one set");
                }
            }
        }
        if cfg.inert {
            let bad = self.b.invalid_ptrs(P::max_inx());
            for p in bad.into_iter().map(P::mk).chain(std::iter::once(P::invalid())) {
                let a = &mut self.a;
                ensure!(!a.contains(p), "contains({p:?}) is true for an invalid pointer");
                ensure!(a.get(p).is_none(), "get({p:?}) accepted an invalid pointer");
                ensure!(a.get_key(p).is_none(), "get_key({p:?}) accepted an invalid pointer");
                ensure!(a.get_val(p).is_none(), "get_val({p:?}) accepted an invalid pointer");
                ensure!(a.get_mut(p).is_none(), "get_mut({p:?}) accepted an invalid pointer");
                ensure!(a.get_key_mut(p).is_none(), "get_key_mut({p:?}) accepted an invalid pointer");
                ensure!(a.get_val_mut(p).is_none(), "get_val_mut({p:?}) accepted an invalid pointer");
                ensure!(a.len_key_set(p).is_none(), "len_key_set({p:?}) accepted an invalid pointer");
                match a.insert_key(p, Kt::new(9_000_001)) {
                    Ok(_) => return Err(format!("insert_key({p:?}) accepted an invalid pointer")),
                    Err(t) => same!(t.id(), 9_000_001, "returned argument"),
                }
                let mut called = false;
                let r = a.insert_key_with(p, |_| {
                    called = true;
                    Kt::new(9_000_002)
                });
                ensure!(r.is_none() && !called, "insert_key_with({p:?}) accepted an invalid pointer");
                ensure!(a.remove_key(p).is_none(), "remove_key({p:?}) accepted an invalid pointer");
                ensure!(a.remove(p).is_none(), "remove({p:?}) accepted an invalid pointer");
                ensure!(a.invalidate(p).is_none(), "invalidate({p:?}) accepted an invalid pointer");
                ensure!(a.iter_surject(p).next().is_none(), "iter_surject({p:?}) visits something from an invalid pointer");
                let mut adv = a.advancer_surject(p);
                ensure!(adv.advance(a).is_none(), "advancer_surject({p:?}) visits something from an invalid pointer");
                for q in ps.iter().cloned().chain(std::iter::once(p)) {
                    for (x, y) in [(p, q), (q, p)] {
                        ensure!(a.in_same_set(x, y).is_none(), "in_same_set({x:?}, {y:?}) accepted an invalid pointer");
                        ensure!(a.get2_key_mut(x, y).is_none(), "get2_key_mut({x:?}, {y:?}) accepted an invalid pointer");
                        ensure!(a.get2_val_mut(x, y).is_none(), "get2_val_mut({x:?}, {y:?}) accepted an invalid pointer");
                        ensure!(a.get2_mut(x, y).is_none(), "get2_mut({x:?}, {y:?}) accepted an invalid pointer");
                        ensure!(a.union(x, y).is_none(), "union({x:?}, {y:?}) accepted an invalid pointer");
                        ensure!(a.swap_keys(x, y).is_none(), "swap_keys({x:?}, {y:?}) accepted an invalid pointer");
                        ensure!(a.swap_vals(x, y).is_none(), "swap_vals({x:?}, {y:?}) accepted an invalid pointer");
                    }
                }
            }
            same!(self.a.capacity_keys(), self.b.cap, "capacity_keys() after refused operations");
            same!(P::rawgen(self.a.generation()), self.b.gen, "generation() after refused operations");
        }
        let got: Vec<_> = self.a.iter().map(|(p, k, v)| (p.raw(), k.id(), v.id())).collect();
        same!(sorted(got), self.triples(), "iter() after refused operations");
        Ok(())
    }

    fn grown(&mut self, keys: usize, vals: usize) -> R {
        let c = self.a.capacity_keys();
        ensure!(c >= self.b.cap && c >= keys, "capacity_keys() went from {} to {c}, needed {keys}", self.b.cap);
        ensure!(c == self.b.cap || keys > self.b.cap, "capacity_keys() went from {} to {c} without need", self.b.cap);
        self.b.cap = c;
        let c = self.a.capacity_vals();
        ensure!(c >= self.vcap && c >= vals, "capacity_vals() went from {} to {c}, needed {vals}", self.vcap);
        ensure!(c == self.vcap || vals > self.vcap, "capacity_vals() went from {} to {c} without need", self.vcap);
        self.vcap = c;
        Ok(())
    }

    fn gen_between(&mut self, lo: u64, hi: u64) -> R {
        let g = P::rawgen(self.a.generation());
        if self.b.has_gen {
            ensure!(
                g >= self.b.gen + lo && g <= self.b.gen + hi,
                "generation() went from {} to {g}, expected an increase of {lo}..={hi}",
                self.b.gen
            );
            self.b.gen = g;
        }
        Ok(())
    }

    /// a new key, in a new set with value `vid` or in set `set`
    fn inserted(&mut self, p: P, kid: u32, set: u32, vid: Option<u32>) -> R {
        self.grown(self.b.len() + 1, self.sets.len() + vid.is_some() as usize)?;
        let r = p.raw();
        ensure!(r.0 <= self.b.cap, "issued {p:?} beyond the capacity");
        if let Some(v) = vid {
            self.sets.insert(set, v);
        }
        self.b.issue(r, Ent { kid, set })
    }

    fn key(&self, k: &mut KeyHash, cfg: &Cfg) {
        self.b.key(k, cfg.ages);
        k.put(self.vcap as u64);
        for (i, _) in &self.b.live {
            k.put(self.next_of(*i).unwrap_or(0) as u64);
        }
        // where the values are, relative to each other
        let first = |v: u32| self.b.live.iter().find(|(_, x)| self.sets[&x.1.set] == v).map(|x| *x.0).unwrap_or(0);
        for v in self.a.vals() {
            k.put(first(v.id()) as u64);
        }
        k.put(2 << 40);
    }

    fn fill(&mut self, k: &mut KeyHash) -> R {
        let (cap, vcap) = (self.b.cap, self.vcap);
        let mut x = 0;
        while self.b.len() < cap {
            let id = 8_000_000 + x;
            x += 1;
            if self.sets.len() < vcap {
                let p = self.a.insert(Kt::new(id), Vt::new(id));
                k.put(p.raw().0 as u64);
                self.inserted(p, id, id, Some(id))?;
                let at = self.a.vals().position(|v| v.id() == id);
                k.put(at.ok_or("the new value is not listed")? as u64);
            } else {
                let Some(i) = self.b.live.keys().next().cloned() else { break };
                let p = self.a.insert_key(self.p(i), Kt::new(id)).map_err(|_| "insert_key refused a valid pointer")?;
                k.put(p.raw().0 as u64);
                self.inserted(p, id, self.set(i), None)?;
            }
        }
        k.put(3 << 40);
        same!(self.a.capacity_keys(), cap, "capacity_keys() after filling it");
        let got: Vec<_> = self.a.iter().map(|(p, k, v)| (p.raw(), k.id(), v.id())).collect();
        same!(sorted(got), self.triples(), "iter() after filling");
        Ok(())
    }

    /// contents, disregarding everything that equality is documented to ignore
    fn contents(&self) -> Vec<(Raw, u32, u32, Vec<usize>)> {
        self.triples().into_iter().map(|(r, k, v)| (r, k, v, self.members(self.set(r.0)))).collect()
    }
    fn links(&self) -> Vec<Option<usize>> {
        self.b.live.keys().map(|i| self.next_of(*i)).collect()
    }
}

impl<P: Px> SurjectWorld<P> {
    fn adv_step(adv: &mut Adv<P>, s: &Side<P>) -> R<bool> {
        match adv.adv.advance(&s.a) {
            None => {
                for m in &adv.must {
                    ensure!(adv.seen.contains(m), "the advancer ended without returning {m:?}, valid since it began");
                }
                adv.done = true;
                Ok(false)
            }
            Some(p) => {
                let r = p.raw();
                ensure!(s.b.valid(r), "the advancer returned {p:?}, which is not valid");
                if s.b.has_gen {
                    ensure!(!adv.seen.contains(&r), "the advancer returned {p:?} twice");
                }
                adv.seen.push(r);
                Ok(true)
            }
        }
    }

    fn sadv_step(adv: &mut SAdv<P>, s: &Side<P>) -> R<bool> {
        adv.steps += 1;
        match adv.adv.advance(&s.a) {
            None => {
                if !adv.loose {
                    for m in &adv.must {
                        ensure!(adv.seen.contains(m), "the set advancer from {:?} ended without returning {m:?}", adv.init);
                    }
                }
                adv.done = true;
                Ok(false)
            }
            Some(p) => {
                let r = p.raw();
                ensure!(s.b.valid(r), "the set advancer from {:?} returned {p:?}, which is not valid", adv.init);
                if !adv.loose {
                    ensure!(!adv.seen.contains(&r), "the set advancer from {:?} returned {p:?} twice", adv.init);
                    ensure!(adv.must.contains(&r), "the set advancer from {:?} returned {p:?} of another set", adv.init);
                }
                adv.seen.push(r);
                Ok(true)
            }
        }
    }

    pub fn slots(&self) -> Vec<usize> {
        self.s.b.live.keys().cloned().collect()
    }
    /// the slot of the newest key
    pub fn last(&self) -> usize {
        *self.s.b.live.iter().max_by_key(|x| x.1 .1.kid).unwrap().0
    }
}

impl<P: Px> World for SurjectWorld<P> {
    type Op = Op;
    type Cfg = Cfg;

    fn new(_: &Cfg) -> Self {
        SurjectWorld {
            s: Side { a: SurjectArena::new(), b: Book::new::<P>(), sets: BTreeMap::new(), vcap: 0 },
            shadow: None,
            next: 0,
            adv: None,
            sadv: None,
        }
    }

    fn ops(&self, cfg: &Cfg, out: &mut Vec<Op>) {
        let g = cfg.groups;
        let b = &self.s.b;
        let sl: Vec<u16> = b.live.keys().map(|x| *x as u16).collect();
        let mut op = |k, a: u16, bb: u16| out.push(Op { k, a, b: bb });
        let m = self.s.sets.len();
        let can = b.len() < b.cap || b.cap < cfg.max_cap && b.cap * 2 <= cfg.max_cap;
        let canv = m < self.s.vcap || self.s.vcap < cfg.max_cap && self.s.vcap * 2 <= cfg.max_cap;
        if can && canv {
            op(K::Insert, 0, 0);
            if g & G_WITH != 0 {
                op(K::InsertWith, 0, 0);
            }
        }
        for i in &sl {
            if can {
                op(K::InsertKey, *i, 0);
                if g & G_WITH != 0 {
                    op(K::InsertKeyWith, *i, 0);
                }
            }
            if g & G_REMOVE != 0 {
                op(K::RemoveKey, *i, 0);
            }
            if g & G_REMOVE_SET != 0 {
                op(K::Remove, *i, 0);
            }
            if g & G_INV != 0 {
                op(K::Invalidate, *i, 0);
            }
            if g & G_MUT != 0 {
                op(K::GetMut, *i, 0);
            }
            for j in &sl {
                if self.s.set(*i as usize) != self.s.set(*j as usize) {
                    op(K::Union, *i, *j);
                    if g & G_MUT != 0 {
                        op(K::Get2, *i, *j);
                    }
                }
                if g & G_SWAP != 0 {
                    op(K::SwapKeys, *i, *j);
                    op(K::SwapVals, *i, *j);
                }
            }
        }
        if g & G_BULK != 0 {
            op(K::Clear, 0, 0);
        }
        if g & G_SHRINK != 0 {
            op(K::ClearShrink, 0, 0);
            op(K::Compress, 0, 0);
            op(K::CompressWith, 0, 0);
            op(K::CompressRecaster, 0, 0);
        }
        if g & G_RESERVE != 0 {
            for r in 0..=2u16 {
                if b.cap + r as usize <= cfg.max_cap {
                    op(K::ReserveKeys, r, 0);
                }
                if self.s.vcap + r as usize <= cfg.max_cap {
                    op(K::ReserveVals, r, 0);
                }
            }
        }
        if g & G_CLONE != 0 {
            op(K::Clone, 0, 0);
        }
        if g & G_RELOAD != 0 {
            op(K::Reload, 0, 0);
            op(K::Reload, 1, 0);
        }
        if g & G_SHADOW != 0 {
            op(K::CloneKeep, 0, 0);
            if self.shadow.is_some() {
                op(K::ShadowFrom, 0, 0);
                op(K::ShadowFromWith, 0, 0);
                op(K::SwapShadow, 0, 0);
            }
        }
        if g & G_ADV != 0 {
            match &self.adv {
                None => op(K::AdvStart, 0, 0),
                Some(a) if !a.done => op(K::AdvStep, 0, 0),
                _ => (),
            }
        }
        if g & G_SADV != 0 {
            match &self.sadv {
                None => {
                    for i in &sl {
                        op(K::SAdvStart, *i, 0);
                    }
                }
                Some(a) if !a.done => op(K::SAdvStep, 0, 0),
                _ => (),
            }
        }
    }

    fn apply(&mut self, _: &Cfg, op: Op) -> R {
        let i = op.a as usize;
        let j = op.b as usize;
        self.next += 1;
        let id = self.next;
        let n = self.s.n();
        // does this touch the set being walked?
        if let Some(sa) = &mut self.sadv {
            let s = &self.s;
            let own = |x: usize| s.b.live.contains_key(&x) && sa.must.iter().any(|m| s.b.valid(*m) && s.set(m.0) == s.set(x));
            match op.k {
                K::InsertKey | K::InsertKeyWith | K::RemoveKey | K::Remove | K::Invalidate => sa.loose |= own(i),
                K::Union => sa.loose |= own(i) || own(j),
                K::Clear | K::ClearShrink | K::Compress | K::CompressWith | K::CompressRecaster | K::SwapShadow => sa.loose = true,
                _ => (),
            }
        }
        let s = &mut self.s;
        match op.k {
            K::Insert => {
                let p = s.a.insert(Kt::new(id), Vt::new(id));
                s.inserted(p, id, id, Some(id))?;
            }
            K::InsertWith => {
                let mut given = None;
                let p = s.a.insert_with(|p| {
                    given = Some(p);
                    (Kt::new(id), Vt::new(id))
                });
                same!(given, Some(p), "pointer given to the creation function of insert_with");
                s.inserted(p, id, id, Some(id))?;
            }
            K::InsertKey => {
                let at = s.p(i);
                let p = s.a.insert_key(at, Kt::new(id)).map_err(|_| format!("insert_key({at:?}) refused a valid pointer"))?;
                let set = s.set(i);
                s.inserted(p, id, set, None)?;
            }
            K::InsertKeyWith => {
                let at = s.p(i);
                let mut given = None;
                let p = s.a.insert_key_with(at, |p| {
                    given = Some(p);
                    Kt::new(id)
                });
                let p = p.ok_or_else(|| format!("insert_key_with({at:?}) refused a valid pointer"))?;
                same!(given, Some(p), "pointer given to the creation function of insert_key_with");
                let set = s.set(i);
                s.inserted(p, id, set, None)?;
            }
            K::Union => {
                let (p, q) = (s.p(i), s.p(j));
                let (l0, l1) = (s.size(s.set(i)), s.size(s.set(j)));
                let (v, kept) = s.a.union(p, q).ok_or_else(|| format!("union({p:?}, {q:?}) of two sets refused"))?;
                let (keep, lose) = if l0 < l1 { (j, i) } else { (i, j) };
                same!(v.id(), s.val(lose), "value returned by union of sets of {l0} and {l1} keys");
                ensure!(s.b.valid(kept.raw()), "union returned {kept:?}, which is not valid");
                same!(s.set(kept.raw().0), s.set(keep), "set of the pointer returned by union");
                let (ks, ls) = (s.set(keep), s.set(lose));
                s.sets.remove(&ls);
                for x in s.b.live.values_mut() {
                    if x.1.set == ls {
                        x.1.set = ks;
                    }
                }
            }
            K::RemoveKey => {
                let p = s.p(i);
                let set = s.set(i);
                let last = s.size(set) == 1;
                let want = (s.b.live[&i].1.kid, last.then(|| s.val(i)));
                let got = s.a.remove_key(p).map(|(k, v)| (k.id(), v.map(|v| v.id())));
                same!(got, Some(want), "remove_key({p:?})");
                s.b.live.remove(&i);
                if last {
                    s.sets.remove(&set);
                }
                s.b.inc();
            }
            K::Remove => {
                let p = s.p(i);
                let set = s.set(i);
                let got = s.a.remove(p).map(|v| v.id());
                same!(got, Some(s.sets[&set]), "remove({p:?})");
                s.sets.remove(&set);
                s.b.live.retain(|_, x| x.1.set != set);
                s.b.inc();
            }
            K::Invalidate => {
                let p = s.p(i);
                let q = s.a.invalidate(p).ok_or_else(|| format!("invalidate({p:?}) refused a valid pointer"))?;
                s.b.inc();
                same!(q.raw().0, i, "slot of an invalidated key");
                s.b.reissue(i, q.raw())?;
            }
            K::SwapKeys => {
                let (p, q) = (s.p(i), s.p(j));
                same!(s.a.swap_keys(p, q), Some(()), "swap_keys({p:?}, {q:?})");
                let (x, y) = (s.b.live[&i].1.kid, s.b.live[&j].1.kid);
                s.b.live.get_mut(&i).unwrap().1.kid = y;
                s.b.live.get_mut(&j).unwrap().1.kid = x;
            }
            K::SwapVals => {
                let (p, q) = (s.p(i), s.p(j));
                same!(s.a.swap_vals(p, q), Some(()), "swap_vals({p:?}, {q:?})");
                let (x, y) = (s.val(i), s.val(j));
                let (si, sj) = (s.set(i), s.set(j));
                s.sets.insert(si, y);
                s.sets.insert(sj, x);
            }
            K::GetMut => {
                let p = s.p(i);
                s.a.get_key_mut(p).ok_or("get_key_mut refused a valid pointer")?.id = id;
                s.a.get_val_mut(p).ok_or("get_val_mut refused a valid pointer")?.id = id;
                same!(s.a.get(p).map(|x| (x.0.id(), x.1.id())), Some((id, id)), "pair after writing it");
                let (k, v) = s.a.get_mut(p).ok_or("get_mut refused a valid pointer")?;
                k.id = id + 100_000;
                v.id = id + 200_000;
                s.b.live.get_mut(&i).unwrap().1.kid = id + 100_000;
                let set = s.set(i);
                s.sets.insert(set, id + 200_000);
            }
            K::Get2 => {
                let (p, q) = (s.p(i), s.p(j));
                {
                    let (x, y) = s.a.get2_key_mut(p, q).ok_or("get2_key_mut refused two valid pointers")?;
                    x.id = id;
                    y.id = id + 1;
                }
                {
                    let (x, y) = s.a.get2_val_mut(p, q).ok_or("get2_val_mut refused two sets")?;
                    x.id = id;
                    y.id = id + 1;
                }
                let (x, y) = s.a.get2_mut(p, q).ok_or("get2_mut refused two sets")?;
                same!((x.0.id(), x.1.id(), y.0.id(), y.1.id()), (id, id, id + 1, id + 1), "what was written");
                x.0.id = id + 100_000;
                x.1.id = id + 200_000;
                y.0.id = id + 300_000;
                y.1.id = id + 400_000;
                s.b.live.get_mut(&i).unwrap().1.kid = id + 100_000;
                s.b.live.get_mut(&j).unwrap().1.kid = id + 300_000;
                let (si, sj) = (s.set(i), s.set(j));
                s.sets.insert(si, id + 200_000);
                s.sets.insert(sj, id + 400_000);
            }
            K::Clear | K::ClearShrink => {
                if op.k == K::Clear {
                    s.a.clear();
                } else {
                    s.a.clear_and_shrink();
                    s.b.cap = 0;
                    s.vcap = 0;
                }
                s.b.live.clear();
                s.sets.clear();
                s.gen_between((n > 0) as u64, 1)?;
            }
            K::Compress | K::CompressWith | K::CompressRecaster => {
                let old = s.triples();
                let old_sets: Vec<u32> = s.b.live.values().map(|x| x.1.set).collect();
                let mut map: Vec<(Raw, u32, Raw)> = vec![];
                match op.k {
                    K::Compress => s.a.compress_and_shrink(),
                    K::CompressWith => {
                        let mut vals = vec![];
                        s.a.compress_and_shrink_with(|p, k, v, q| {
                            map.push((p.raw(), k.id(), q.raw()));
                            vals.push((p.raw(), v.id() % 1_000_000));
                            k.id += 1_000;
                            // counted once per key
                            v.id += 1_000_000;
                        });
                        same!(sorted(vals), old.iter().map(|x| (x.0, x.2 % 1_000_000)).collect::<Vec<_>>(), "values reported by compression");
                    }
                    _ => {
                        let r = s.a.compress_and_shrink_recaster();
                        for (p, q) in &r {
                            map.push((p.raw(), 0, q.raw()));
                        }
                    }
                }
                s.gen_between((n > 0) as u64, 1)?;
                s.b.cap = n;
                s.vcap = s.sets.len();
                s.b.live.clear();
                let bump = (op.k == K::CompressWith) as u32;
                for (set, v) in s.sets.iter_mut() {
                    *v += bump * 1_000_000 * old_sets.iter().filter(|x| *x == set).count() as u32;
                }
                // find every key again by its identity
                let now: Vec<(Raw, u32)> = s.a.iter().map(|(p, k, _)| (p.raw(), k.id())).collect();
                same!(now.len(), n, "number of keys after compression");
                let mut seq = vec![];
                for (r, kid) in &now {
                    let at = old.iter().position(|o| o.1 + 1_000 * bump == *kid);
                    let at = at.ok_or_else(|| format!("a key with identity {kid} appeared in compression"))?;
                    s.b.issue(*r, Ent { kid: *kid, set: old_sets[at] })?;
                    seq.push(old_sets[at]);
                }
                seq.dedup();
                same!(seq.len(), s.sets.len(), "runs of keys of the same set in iteration after compression");
                if op.k != K::Compress {
                    same!(map.len(), n, "number of moved keys reported by compression");
                    for o in &old {
                        let Some(m) = map.iter().find(|m| m.0 == o.0) else {
                            return Err(format!("compression did not report {:?}", o.0));
                        };
                        let new = now.iter().find(|x| x.1 == o.1 + 1_000 * bump).unwrap().0;
                        same!(m.2, new, "new pointer reported by compression for {:?}", o.0);
                        if bump != 0 {
                            same!(m.1, o.1, "key reported by compression for {:?}", o.0);
                        }
                    }
                }
            }
            K::ReserveKeys | K::ReserveVals => {
                let (ck, cv) = (s.b.cap, s.vcap);
                if op.k == K::ReserveKeys {
                    s.a.reserve_keys(i);
                    s.b.cap = s.a.capacity_keys();
                    ensure!(s.b.cap >= ck.max(s.n() + i), "reserve_keys({i}) left capacity {} of {ck} for {n} keys", s.b.cap);
                } else {
                    s.a.reserve_vals(i);
                    s.vcap = s.a.capacity_vals();
                    ensure!(s.vcap >= cv.max(s.sets.len() + i), "reserve_vals({i}) left capacity {} of {cv}", s.vcap);
                }
            }
            K::Reload => {
                let r = crate::ser::reload(&s.a, op.a as usize)?;
                let old = std::mem::replace(&mut s.b, Book::new::<P>());
                for (i, (_, e)) in old.live {
                    s.b.issue((i, s.b.gen), e)?;
                }
                s.a = r;
                s.b.cap = s.a.capacity_keys();
                s.vcap = s.a.capacity_vals();
                ensure!(s.vcap >= s.sets.len(), "value capacity {} for {} values", s.vcap, s.sets.len());
                self.adv = None;
                self.sadv = None;
            }
            K::Clone | K::CloneKeep => {
                let c = s.a.clone();
                let (ck, cv) = (c.capacity_keys(), c.capacity_vals());
                ensure!(ck >= n && ck <= s.b.cap, "a clone has key capacity {ck} (source {}, length {n})", s.b.cap);
                ensure!(cv >= s.sets.len() && cv <= s.vcap, "a clone has value capacity {cv} (source {})", s.vcap);
                ensure!(c == s.a && s.a == c, "a clone is not equal to its source");
                let (mut b, sets, _) = s.copy_model();
                b.cap = ck;
                if op.k == K::Clone {
                    s.a = c;
                    s.b = b;
                    s.vcap = cv;
                } else {
                    self.shadow = Some(Side { a: c, b, sets, vcap: cv });
                }
            }
            K::ShadowFrom | K::ShadowFromWith => {
                let sh = self.shadow.as_mut().unwrap();
                let (mut b, mut sets, _) = s.copy_model();
                if op.k == K::ShadowFrom {
                    sh.a.clone_from(&s.a);
                } else {
                    let (mut ks, mut vs) = (vec![], vec![]);
                    sh.a.clone_from_with(
                        &s.a,
                        |p, k: &Kt| {
                            ks.push((p.raw(), k.id()));
                            Kt::new(k.id() + 50_000)
                        },
                        |len, v: &Vt| {
                            vs.push((v.id(), len.get()));
                            Vt::new(v.id() + 50_000)
                        },
                    );
                    same!(sorted(ks), s.triples().iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(), "keys given to the mapping of clone_from_with");
                    let want = sorted(s.sets.iter().map(|(x, v)| (*v, s.size(*x))).collect());
                    same!(sorted(vs), want, "values and set sizes given to the mapping of clone_from_with");
                    for x in b.live.values_mut() {
                        x.1.kid += 50_000;
                    }
                    for v in sets.values_mut() {
                        *v += 50_000;
                    }
                }
                let (ck, cv) = (sh.a.capacity_keys(), sh.a.capacity_vals());
                ensure!(ck >= n && ck <= s.b.cap.max(sh.b.cap), "clone_from gave key capacity {ck} (source {}, target {})", s.b.cap, sh.b.cap);
                ensure!(cv >= sets.len() && cv <= s.vcap.max(sh.vcap), "clone_from gave value capacity {cv} (source {}, target {})", s.vcap, sh.vcap);
                b.cap = ck;
                sh.b = b;
                sh.sets = sets;
                sh.vcap = cv;
            }
            K::SwapShadow => {
                std::mem::swap(&mut self.s, self.shadow.as_mut().unwrap());
                self.adv = None;
                self.sadv = None;
            }
            K::AdvStart => {
                self.adv = Some(Adv { adv: s.a.advancer(), seen: vec![], must: s.b.ptrs(), done: false });
            }
            K::AdvStep => {
                let mut adv = self.adv.take().unwrap();
                Self::adv_step(&mut adv, &self.s)?;
                self.adv = Some(adv);
            }
            K::SAdvStart => {
                let must = s.members(s.set(i)).iter().map(|x| s.b.raw(*x)).collect();
                self.sadv = Some(SAdv {
                    adv: s.a.advancer_surject(s.p(i)),
                    init: s.b.raw(i),
                    seen: vec![],
                    must,
                    loose: false,
                    steps: 0,
                    len0: n,
                    done: false,
                });
            }
            K::SAdvStep => {
                let mut adv = self.sadv.take().unwrap();
                Self::sadv_step(&mut adv, &self.s)?;
                self.sadv = Some(adv);
            }
        }
        if let Some(adv) = &mut self.adv {
            let b = &self.s.b;
            adv.must.retain(|r| b.valid(*r));
        }
        Ok(())
    }

    fn observe(&mut self, cfg: &Cfg) -> R {
        self.s.observe(cfg)?;
        let mut inst = self.s.n() + self.s.sets.len();
        if let Some(sh) = &mut self.shadow {
            inst += sh.n() + sh.sets.len();
            sh.observe(cfg).map_err(|e| format!("(other arena) {e}"))?;
            let (x, y) = (self.s.contents(), sh.contents());
            let (e, f) = (self.s.a == sh.a, sh.a == self.s.a);
            same!(e, f, "equality of two arenas in both directions");
            if x != y {
                ensure!(!e, "two arenas with different contents are equal: {x:?} and {y:?}");
            } else if self.s.links() == sh.links() {
                ensure!(e, "two arenas with the same contents are not equal: {x:?}");
            }
        }
        ensure!(self.s.a == self.s.a, "an arena is not equal to itself");
        tv::check_live(inst)
    }

    fn finish(mut self, cfg: &Cfg, key: &mut KeyHash) -> R {
        self.s.key(key, cfg);
        if let Some(adv) = &mut self.adv {
            key.put(77);
            for r in &adv.seen {
                key.put(r.0 as u64);
                key.put(self.s.b.valid(*r) as u64);
            }
            key.put(78);
            for r in &adv.must {
                key.put(r.0 as u64);
            }
            key.put(adv.done as u64);
            let mut n = 0;
            while !adv.done && Self::adv_step(adv, &self.s)? {
                n += 1;
                ensure!(n <= self.s.b.cap + 1, "the advancer does not end");
            }
        }
        if let Some(adv) = &mut self.sadv {
            key.put(79);
            key.put(adv.init.0 as u64);
            key.put(self.s.b.valid(adv.init) as u64);
            for r in &adv.seen {
                key.put(r.0 as u64);
                if !adv.loose {
                    key.put(self.s.b.valid(*r) as u64);
                }
            }
            key.put(80);
            key.put(adv.steps as u64);
            key.put(adv.len0 as u64);
            key.put(adv.loose as u64 + 2 * adv.done as u64);
            let mut n = 0;
            let lim = adv.len0 + self.s.b.cap + 2;
            while !adv.done && Self::sadv_step(adv, &self.s)? {
                n += 1;
                ensure!(n <= lim, "the set advancer does not end");
            }
        }
        if cfg.full {
            let n = self.s.n();
            let tr = self.s.triples();
            ensure!(self.s.a.clone() == self.s.a, "a clone is not equal to its source");
            let mut at: Arena<P, u32> = Arena::new();
            let mut ct: ChainArena<P, u32> = ChainArena::new();
            let mut nt: ChainNoGenArena<P, u32> = ChainNoGenArena::new();
            for x in 0..(n as u32 % 4) {
                at.insert(x);
                ct.insert_new_cyclic(x);
                nt.insert_new(x);
            }
            let mut seen = vec![];
            self.s.a.clone_keys_to_arena(&mut at, |p, k| {
                seen.push((p.raw(), k.id()));
                k.id() + 7
            });
            same!(sorted(seen), tr.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(), "keys given to the mapping of clone_keys_to_arena");
            self.s.a.clone_keys_to_chain_arena(&mut ct, |_, k| k.id() + 8);
            self.s.a.clone_keys_to_chain_no_gen_arena(&mut nt, |_, k| k.id() + 9);
            same!((at.len(), ct.len(), nt.len()), (n, n, n), "lengths of the arenas made from the keys");
            for g in [at.generation(), ct.generation(), nt.generation()] {
                same!(P::rawgen(g), self.s.b.gen, "generation of an arena made from the keys");
            }
            for (r, k, _) in &tr {
                let p = P::mk(*r);
                same!(at.get(p).copied(), Some(k + 7), "element of the arena made from the keys");
                let l = ct.get_link(p).map(|l| (l.next().map(|x| x.raw().0), l.t));
                same!(l, Some((self.s.next_of(r.0), k + 8)), "link of the chain arena made from the keys");
                let l = nt.get_link(p).map(|l| (l.next().map(|x| PtrInx::get(x).get()), l.t));
                same!(l, Some((self.s.next_of(r.0), k + 9)), "link of the generation-less chain arena made from the keys");
            }
            Arena::_check_invariants(&at).map_err(|e| format!("clone_keys_to_arena: {e}"))?;
            ChainArena::_check_invariants(&ct).map_err(|e| format!("clone_keys_to_chain_arena: {e}"))?;
            ChainNoGenArena::_check_invariants(&nt).map_err(|e| format!("clone_keys_to_chain_no_gen_arena: {e}"))?;
        }
        self.s.fill(key)?;
        if let Some(sh) = &mut self.shadow {
            sh.key(key, cfg);
            sh.fill(key)?;
        }
        let SurjectWorld { s, shadow, .. } = self;
        drop(s.a);
        if let Some(sh) = shadow {
            let got: Vec<_> = sh.a.iter().map(|(p, k, v)| (p.raw(), k.id(), v.id())).collect();
            same!(sorted(got), sh.triples(), "entries of the other arena after a drop");
        }
        Ok(())
    }
}
