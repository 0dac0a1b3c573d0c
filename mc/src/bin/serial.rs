//! Writing arenas out and reading them back, and reading what no arena has written.

use mc::ser::FORMATS;
use mc::*;
use mc::{w_arena as wa, w_chain as wc, w_ord as wo, w_surject as ws};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet};
use triple_arena::utils::{ChainNoGenArena, PtrInx};
use triple_arena::{Arena, ChainArena, OrdArena, Ptr, SurjectArena};

type T = tv::Tv<0>;
type A<P> = wa::ArenaWorld<P>;
type C<P> = wc::ChainWorld<P, ChainArena<P, wc::T>>;
type N<P> = wc::ChainWorld<P, ChainNoGenArena<P, wc::T>>;
type O<P> = wo::OrdWorld<P>;
type S<P> = ws::SurjectWorld<P>;

fn ac(groups: u32, max_cap: usize) -> wa::Cfg {
    wa::Cfg { groups: groups | wa::G_BASE | wa::G_RELOAD, max_cap, ages: false, full: true }
}
fn cc(groups: u32, max_cap: usize) -> wc::Cfg {
    wc::Cfg { groups: groups | wc::G_RELOAD, max_cap, ages: false, full: true }
}
fn oc(groups: u32, max_cap: usize) -> wo::Cfg {
    wo::Cfg { groups: groups | wo::G_RELOAD, max_cap, max_len: max_cap, slots: true, ages: false, inert: true, lin: false, full: true }
}
fn sc(groups: u32, max_cap: usize) -> ws::Cfg {
    ws::Cfg { groups: groups | ws::G_RELOAD, max_cap, ages: false, inert: true, full: true }
}

/// Larger arenas with holes, read back and used further
fn sizes(c: &mut Ctx, max: usize) {
    // every size, with every n-th removed, or none
    let gaps = [0usize, 1, 2, 3, 7];
    let per = gaps.len() as u64 * 2;
    macro_rules! fam {
        ($name:expr, $w:ty, $m:ident, $cfg:expr, $ins:expr, $rem:expr, $rest:expr) => {
            c.enumerate(
                concat!("larger sizes, ", $name),
                per * max as u64,
                move |x| format!("{} elements, every {}. removed, {}", x / per, gaps[(x % per / 2) as usize], FORMATS[(x % 2) as usize]),
                move |x| {
                    let n = (x / per) as usize;
                    let gap = gaps[(x % per / 2) as usize];
                    let cfg = $cfg;
                    play::<$w>(&cfg, |w| {
                        let ins: fn(&mut $w, usize) -> $m::Op = $ins;
                        let rem: fn(&mut $w, usize) -> Vec<$m::Op> = $rem;
                        for i in 0..n {
                            let op = ins(w, i);
                            w.apply(&cfg, op)?;
                        }
                        if gap != 0 {
                            for op in rem(w, gap) {
                                w.apply(&cfg, op)?;
                            }
                        }
                        for op in $rest {
                            w.apply(&cfg, op((x % 2) as u8))?;
                        }
                        w.observe(&cfg)?;
                        for i in 0..3 {
                            let op = ins(w, i);
                            w.apply(&cfg, op)?;
                        }
                        Ok(())
                    })?;
                    Ok(n > 0)
                },
            );
        };
    }
    fam!("arena", A<PD>, wa, wa::Cfg { groups: 0, max_cap: 4096, ages: false, full: false },
        |_, _| wa::Op { k: wa::K::Insert, a: 0, b: 0 },
        |w, gap| w.s.b.live.keys().filter(|x| **x % gap == 0).map(|x| wa::Op { k: wa::K::Remove, a: *x as u16, b: 0 }).collect(),
        [|f: u8| wa::Op { k: wa::K::Reload, a: f as u16, b: 0 }]);
    fam!("surject", S<PD>, ws, ws::Cfg { groups: 0, max_cap: 4096, ages: false, inert: false, full: false },
        |w, i| match w.s.b.live.keys().next() {
            Some(x) if i % 3 != 0 => ws::Op { k: ws::K::InsertKey, a: *x as _, b: 0 },
            _ => ws::Op { k: ws::K::Insert, a: 0, b: 0 },
        },
        |w, gap| w.s.b.live.keys().filter(|x| **x % gap == 0).map(|x| ws::Op { k: ws::K::RemoveKey, a: *x as _, b: 0 }).collect(),
        [|f: u8| ws::Op { k: ws::K::Reload, a: f as _, b: 0 }]);
}

/// Trees of every size written and read back
fn trees(c: &mut Ctx, max: u64) {
    c.enumerate(
        "ordered arenas of every size",
        max * 2,
        |x| format!("{} entries, {}", x / 2, FORMATS[(x % 2) as usize]),
        |x| {
            let n = (x / 2) as u32;
            let mut a: OrdArena<PD, u32, T> = OrdArena::new();
            // in an order that needs compression
            for i in 0..n {
                let k = i.reverse_bits() >> 16;
                let _ = a.insert(k, T::new(k));
            }
            a.compress_and_shrink();
            let want: Vec<(u32, u32)> = a.iter().map(|(_, k, v)| (*k, v.id())).collect();
            let mut b = mc::ser::reload(&a, (x % 2) as usize)?;
            drop(a);
            let got: Vec<(u32, u32)> = b.iter().map(|(_, k, v)| (*k, v.id())).collect();
            same!(got, want, "entries in order");
            OrdArena::_check_invariants(&b)?;
            for (k, _) in &want {
                let p = b.find_key(k).ok_or_else(|| format!("key {k} is not found"))?;
                same!(b.get_key(p), Some(k), "key found");
                same!(b.get_val(p).map(|v| v.id()), Some(*k), "value found");
            }
            for (k, _) in want.iter().step_by(3) {
                let p = b.find_key(k).ok_or("key is not found")?;
                ensure!(b.remove(p).is_some(), "key {k} was not removed");
            }
            for k in 70_000..70_010 {
                let _ = b.insert(k, T::new(k));
            }
            OrdArena::_check_invariants(&b)?;
            same!(b.len(), want.len() - (want.len() + 2) / 3 + 10, "len()");
            Ok(n > 0)
        },
    );
}

/// Steps of searches in trees that were read back, also after changes to them
fn balance(c: &mut Ctx, max: u64) {
    let more = [1023u64, 1024, 1025, 4095, 4096, 4097, 65_535, 65_536, 65_537];
    c.enumerate(
        "trees read back",
        max + more.len() as u64,
        move |x| format!("{} entries", if x < max { x } else { more[(x - max) as usize] }),
        move |x| {
            let n = if x < max { x } else { more[(x - max) as usize] } as usize;
            let doc: Vec<u8> = {
                let mut a: OrdArena<PD, u32, u32> = OrdArena::new();
                for i in 0..n as u32 {
                    let _ = a.insert(2 * i + 1, i);
                }
                a.compress_and_shrink();
                mc::ser::write(&a, 1)?
            };
            let mut a: OrdArena<PD, u32, u32> = postcard::from_bytes(&doc).map_err(|e| e.to_string())?;
            let steps = |a: &OrdArena<PD, u32, u32>| {
                let mut worst = 0;
                for k in 0..=2 * n as u32 {
                    let mut i = 0;
                    let _ = a.find_with(|_, x, _| {
                        i += 1;
                        k.cmp(x)
                    });
                    worst = worst.max(i);
                }
                worst
            };
            let h = steps(&a);
            let most = wo::ideal_height(n) + 1;
            ensure!(h <= most, "a search in a tree of {n} entries that was read back looked at {h}, at most {most} are permitted");
            // one side is taken away, then put in again in descending order
            for _ in 0..n / 2 {
                let p = a.first().ok_or("first() gave nothing")?;
                ensure!(a.remove(p).is_some(), "the first entry was not removed");
            }
            let (h, most) = (steps(&a), wo::max_height(a.len()));
            ensure!(h <= most, "after removals a search among {} entries looked at {h}, at most {most} are permitted", a.len());
            for i in (0..n as u32 / 2).rev() {
                let _ = a.insert(2 * i + 1, i);
            }
            same!(a.len(), n, "length");
            let (h, most) = (steps(&a), wo::max_height(n));
            ensure!(h <= most, "after insertions a search among {n} entries looked at {h}, at most {most} are permitted");
            Ok(n > 1)
        },
    );
}

/// Arenas with more elements than are allocated in advance, and than a 16 bit number can count
fn huge(c: &mut Ctx) {
    let sizes = [1023usize, 1024, 1025, 1026, 2049, 65_535, 65_536, 65_537, 70_000];
    c.enumerate(
        "huge arenas read back",
        sizes.len() as u64 * 2 * 5,
        move |x| format!("{} of {} elements, {}", ["arena", "chain", "nogen-chain", "surject", "ord"][(x % 5) as usize], sizes[(x / 10) as usize], FORMATS[(x / 5 % 2) as usize]),
        move |x| {
            let (n, f) = (sizes[(x / 10) as usize], (x / 5 % 2) as usize);
            // holes in several places, also at the end, and wide ones
            let wide = match n {
                1026 => 20..1010,
                70_000 => 3000..69_990,
                _ => 0..0,
            };
            let hole = |i: usize| i % 5 == 2 || i == n - 1 || i == 1024 || wide.contains(&i);
            match x % 5 {
                0 => {
                    let mut a: Arena<PD, usize> = (0..n).collect();
                    a.remove_by(|_, i| hole(*i));
                    let mut b = mc::ser::reload(&a, f)?;
                    same!(b.len(), a.len(), "length");
                    let at = |a: &Arena<PD, usize>| a.iter().map(|(p, i)| (ix(p), *i)).collect::<BTreeMap<_, _>>();
                    let mut want = at(&a);
                    ensure!(at(&b) == want, "contents differ");
                    for p in b.ptrs() {
                        same!(p, PD::mk((ix(p) as usize, 2)), "pointer after reading");
                    }
                    let cap = b.capacity();
                    while b.len() < cap {
                        let p = b.try_insert(n).map_err(|_| "no room in spite of spare capacity")?;
                        ensure!(want.insert(ix(p), n).is_none(), "the index of {p:?} was in use");
                    }
                    ensure!(b.try_insert(0).is_err(), "room in spite of no spare capacity");
                    ensure!(at(&b) == want, "contents differ after filling up");
                }
                1 => {
                    let mut a: ChainArena<PD, usize> = ChainArena::new();
                    let mut last = None;
                    for i in 0..n {
                        last = Some(a.insert((last.filter(|_| i % 1000 != 0), None), i).map_err(|_| "insertion refused")?);
                    }
                    let gone: Vec<PD> = a.iter().filter(|x| hole(x.1.t)).map(|x| x.0).collect();
                    for p in gone {
                        ensure!(a.remove(p).is_some(), "{p:?} was not removed");
                    }
                    let b = mc::ser::reload(&a, f)?;
                    same!(b.len(), a.len(), "length");
                    let at = |a: &ChainArena<PD, usize>| a.iter().map(|(p, l)| (ix(p), (l.prev().map(ix), l.next().map(ix), l.t))).collect::<BTreeMap<_, _>>();
                    ensure!(at(&b) == at(&a), "contents differ");
                    ChainArena::_check_invariants(&b)?;
                }
                2 => {
                    let mut a: ChainNoGenArena<PD, usize> = ChainNoGenArena::new();
                    let mut last: Option<PD> = None;
                    for i in 0..n {
                        last = Some(a.insert((last.filter(|_| i % 1000 != 0).map(|p| p.inx()), None), i).map_err(|_| "insertion refused")?);
                    }
                    let gone: Vec<PD> = a.iter().filter(|x| hole(x.1.t)).map(|x| x.0).collect();
                    for p in gone {
                        ensure!(a.remove(p).is_some(), "{p:?} was not removed");
                    }
                    let b = mc::ser::reload(&a, f)?;
                    same!(b.len(), a.len(), "length");
                    let at = |a: &ChainNoGenArena<PD, usize>| a.iter().map(|(p, l)| (ix(p), (l.prev(), l.next(), l.t))).collect::<BTreeMap<_, _>>();
                    ensure!(at(&b) == at(&a), "contents differ");
                    ChainNoGenArena::_check_invariants(&b)?;
                }
                3 => {
                    let mut a: SurjectArena<PD, usize, usize> = SurjectArena::new();
                    let mut last = None;
                    for i in 0..n {
                        last = Some(match last {
                            // two large sets and many small ones
                            Some(p) if i < n / 2 || (i % 3 != 0 && i != n / 2) => a.insert_key(p, i).map_err(|_| "insertion refused")?,
                            _ => a.insert(i, i),
                        });
                    }
                    let gone: Vec<PD> = a.iter().filter(|x| hole(*x.1)).map(|x| x.0).collect();
                    for p in gone {
                        ensure!(a.remove_key(p).is_some(), "{p:?} was not removed");
                    }
                    let b = mc::ser::reload(&a, f)?;
                    same!((b.len_keys(), b.len_vals()), (a.len_keys(), a.len_vals()), "numbers of keys and values");
                    let at = |a: &SurjectArena<PD, usize, usize>| a.iter().map(|(p, k, v)| (ix(p), (*k, *v, a.len_key_set(p)))).collect::<BTreeMap<_, _>>();
                    ensure!(at(&b) == at(&a), "contents differ");
                    SurjectArena::_check_invariants(&b)?;
                }
                _ => {
                    let mut a: OrdArena<PD, usize, usize> = (0..n).filter(|i| !hole(*i)).map(|i| (i * 7919 % n, i)).collect();
                    a.compress_and_shrink();
                    let b = mc::ser::reload(&a, f)?;
                    same!(b.len(), a.len(), "length");
                    let at = |a: &OrdArena<PD, usize, usize>| a.iter().map(|(p, k, v)| (ix(p), *k, *v)).collect::<Vec<_>>();
                    ensure!(at(&b) == at(&a), "contents differ");
                    OrdArena::_check_invariants(&b)?;
                    for k in 0..n {
                        same!(b.find_key(&k).map(ix), a.find_key(&k).map(ix), "place of key {k}");
                    }
                }
            }
            Ok(true)
        },
    );
}

// ---- documents ----

type ArenaDoc = Vec<(u64, u32)>;
type LinkDoc = (Option<u64>, Option<u64>, u32);
type ChainDoc = Vec<(u64, LinkDoc)>;
type KeyDoc = (Option<u64>, Option<u64>, (u32, u64));
type SurDoc = (Vec<(u64, KeyDoc)>, Vec<(u64, (u32, u64))>);
type OrdDoc = Vec<(u32, u32)>;

trait Doc: Serialize + DeserializeOwned {
    /// as text of the format
    fn text(&self) -> String;
    /// whether the rules hold
    fn good(&self) -> bool;
}
fn opt(x: &Option<u64>) -> String {
    match x {
        None => "None".into(),
        Some(x) => format!("Some({x})"),
    }
}
fn map_text<V>(v: &[(u64, V)], f: impl Fn(&V) -> String) -> String {
    format!("{{{}}}", v.iter().map(|(i, x)| format!("{i}:{}", f(x))).collect::<Vec<_>>().join(","))
}
fn distinct<V>(v: &[(u64, V)]) -> bool {
    let s: BTreeSet<u64> = v.iter().map(|x| x.0).collect();
    s.len() == v.len() && !s.contains(&0)
}
/// interlinks are mutual
fn mutual(v: &[(u64, (Option<u64>, Option<u64>))]) -> bool {
    let m: BTreeMap<u64, (Option<u64>, Option<u64>)> = v.iter().cloned().collect();
    v.iter().all(|(i, (p, n))| {
        p.map_or(true, |p| m.get(&p).map_or(false, |x| x.1 == Some(*i)))
            && n.map_or(true, |n| m.get(&n).map_or(false, |x| x.0 == Some(*i)))
    })
}
impl Doc for ArenaDoc {
    fn text(&self) -> String {
        map_text(self, |v| v.to_string())
    }
    fn good(&self) -> bool {
        distinct(self)
    }
}
impl Doc for ChainDoc {
    fn text(&self) -> String {
        map_text(self, |(p, n, v)| format!("({},{},{v})", opt(p), opt(n)))
    }
    fn good(&self) -> bool {
        distinct(self) && mutual(&self.iter().map(|(i, l)| (*i, (l.0, l.1))).collect::<Vec<_>>())
    }
}
impl Doc for SurDoc {
    fn text(&self) -> String {
        format!(
            "({},{})",
            map_text(&self.0, |(p, n, (k, v))| format!("({},{},({k},{v}))", opt(p), opt(n))),
            map_text(&self.1, |(v, c)| format!("({v},{c})"))
        )
    }
    fn good(&self) -> bool {
        let (ks, vs) = self;
        if !distinct(ks) || !distinct(vs) || vs.iter().any(|x| x.1 .1 == 0) || ks.iter().any(|x| x.1 .2 .1 == 0) {
            return false;
        }
        if !mutual(&ks.iter().map(|(i, l)| (*i, (l.0, l.1))).collect::<Vec<_>>()) {
            return false;
        }
        let m: BTreeMap<u64, &KeyDoc> = ks.iter().map(|x| (x.0, &x.1)).collect();
        // the keys of each value are one cyclic chain of the right size
        let mut left: BTreeSet<u64> = m.keys().copied().collect();
        for (v, (_, count)) in vs {
            let first = match ks.iter().find(|k| k.1 .2 .1 == *v) {
                None => return false,
                Some(k) => k.0,
            };
            let mut at = first;
            let mut n = 0;
            loop {
                if m[&at].2 .1 != *v || !left.remove(&at) {
                    return false;
                }
                n += 1;
                match m[&at].1 {
                    None => return false,
                    Some(x) => at = x,
                }
                if at == first {
                    break;
                }
            }
            if n != *count {
                return false;
            }
        }
        left.is_empty()
    }
}
impl Doc for OrdDoc {
    fn text(&self) -> String {
        format!("{{{}}}", self.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(","))
    }
    fn good(&self) -> bool {
        self.windows(2).all(|w| w[0].0 <= w[1].0)
    }
}

/// What can be read from documents
trait Target: DeserializeOwned {
    type D: Doc;
    const NAME: &'static str;
    /// whether something other than an error may come of documents that break the rules (in a documented way)
    const LENIENT: bool = false;
    /// compares all there is
    fn same(&self, d: &Self::D) -> R;
    /// uses it further
    fn using(self) -> R;
}
fn ix(p: PD) -> u64 {
    PtrInx::get(p.inx()).get() as u64
}
fn by_index<V: Clone>(d: &[(u64, V)]) -> Vec<(u64, V)> {
    let mut v = d.to_vec();
    v.sort_by_key(|x| x.0);
    v
}
fn fresh(raw: Raw) -> R {
    same!(raw.1, 2, "generation of the pointer with index {}", raw.0);
    Ok(())
}
impl Target for Arena<PD, T> {
    type D = ArenaDoc;
    const NAME: &'static str = "arena";
    fn same(&self, d: &ArenaDoc) -> R {
        let got: ArenaDoc = self.iter().map(|(p, t)| (ix(p), t.id())).collect();
        same!(by_index(&got), by_index(d), "elements");
        for p in self.ptrs() {
            fresh(p.raw())?;
        }
        same!(self.len(), d.len(), "len()");
        same!(self.generation().get(), 2, "generation()");
        Arena::_check_invariants(self)?;
        Ok(())
    }
    fn using(mut self) -> R {
        let mut seen: BTreeSet<Raw> = self.ptrs().map(|p| p.raw()).collect();
        for i in 0..9 {
            let p = self.insert(T::new(1000 + i));
            ensure!(seen.insert(p.raw()), "insertion gave the pointer {p:?} that is in use");
        }
        let ps: Vec<PD> = self.ptrs().collect();
        same!(ps.len(), seen.len(), "number of elements");
        for p in ps {
            ensure!(self.remove(p).is_some(), "{p:?} cannot be removed");
            Arena::_check_invariants(&self)?;
        }
        ensure!(self.is_empty(), "elements are left");
        Ok(())
    }
}
macro_rules! chain_target {
    ($t:ident, $name:expr, $i:expr, $fresh:expr) => {
        impl Target for $t<PD, T> {
            type D = ChainDoc;
            const NAME: &'static str = $name;
            fn same(&self, d: &ChainDoc) -> R {
                let i = $i;
                let mut got: ChainDoc = vec![];
                for (p, l) in self.iter() {
                    fresh(p.raw())?;
                    for q in [l.prev(), l.next()].into_iter().flatten() {
                        ($fresh)(q)?;
                    }
                    got.push((ix(p), (l.prev().map(i), l.next().map(i), l.t.id())));
                }
                same!(by_index(&got), by_index(d), "links");
                same!(self.len(), d.len(), "len()");
                same!(self.generation().get(), 2, "generation()");
                $t::_check_invariants(self)?;
                Ok(())
            }
            fn using(mut self) -> R {
                let ps: Vec<PD> = self.ptrs().collect();
                for p in &ps {
                    self.insert_new(T::new(ix(*p) as u32));
                }
                for p in &ps {
                    let n = self.remove_chain(*p);
                    same!(n.is_some(), n != None, "remove_chain");
                    $t::_check_invariants(&self)?;
                }
                same!(self.len(), ps.len(), "length after removing all chains but those added");
                Ok(())
            }
        }
    };
}
chain_target!(ChainArena, "chain", ix, |q: PD| fresh(q.raw()));
chain_target!(ChainNoGenArena, "nogen-chain", |x: <PD as Ptr>::Inx| PtrInx::get(x).get() as u64, |_| R::Ok(()));
impl Target for SurjectArena<PD, T, T> {
    type D = SurDoc;
    const NAME: &'static str = "surject";
    fn same(&self, d: &SurDoc) -> R {
        let mut got: Vec<(u64, (u32, u32))> = vec![];
        for (p, k, v) in self.iter() {
            fresh(p.raw())?;
            got.push((ix(p), (k.id(), v.id())));
        }
        let vals: BTreeMap<u64, u32> = d.1.iter().map(|(i, (v, _))| (*i, *v)).collect();
        let want: Vec<(u64, (u32, u32))> = d.0.iter().map(|(i, k)| (*i, (k.2 .0, vals[&k.2 .1]))).collect();
        same!(by_index(&got), by_index(&want), "keys and values");
        same!((self.len_keys(), self.len_vals()), (d.0.len(), d.1.len()), "lengths");
        for (i, k) in &d.0 {
            let p = PD::mk((*i as usize, 2));
            let mut set: Vec<u64> = self.iter_surject(p).map(|x| ix(x.0)).collect();
            set.sort();
            let mut want: Vec<u64> = d.0.iter().filter(|x| x.1 .2 .1 == k.2 .1).map(|x| x.0).collect();
            want.sort();
            same!(set, want, "set of {p:?}");
            same!(self.len_key_set(p).map(|x| x.get()), Some(want.len()), "size of the set of {p:?}");
        }
        same!(self.generation().get(), 2, "generation()");
        SurjectArena::_check_invariants(self)?;
        Ok(())
    }
    fn using(mut self) -> R {
        let ps: Vec<PD> = self.ptrs().collect();
        self.insert(T::new(1), T::new(2));
        for p in &ps {
            self.insert_key(*p, T::new(3)).map_err(|_| "insert_key refused")?;
            SurjectArena::_check_invariants(&self)?;
        }
        for p in &ps {
            ensure!(self.remove_key(*p).is_some(), "remove_key refused");
            SurjectArena::_check_invariants(&self)?;
        }
        same!(self.len_keys(), ps.len() + 1, "keys left");
        Ok(())
    }
}
impl Target for OrdArena<PD, u32, T> {
    type D = OrdDoc;
    const NAME: &'static str = "ord";
    const LENIENT: bool = true;
    fn same(&self, d: &OrdDoc) -> R {
        let mut got: OrdDoc = vec![];
        for (n, (p, k, v)) in self.iter().enumerate() {
            fresh(p.raw())?;
            same!(ix(p), n as u64 + 1, "index of entry {n}");
            got.push((*k, v.id()));
        }
        same!(&got, d, "entries");
        same!(self.len(), d.len(), "len()");
        same!(self.generation().get(), 2, "generation()");
        OrdArena::_check_invariants(self)?;
        for (k, _) in d {
            let p = self.find_key(k).ok_or_else(|| format!("key {k} is not found"))?;
            same!(self.get_key(p), Some(k), "key found");
        }
        Ok(())
    }
    fn using(mut self) -> R {
        let ps: Vec<PD> = self.ptrs().collect();
        for k in 0..5 {
            let _ = self.insert(k, T::new(k));
            OrdArena::_check_invariants(&self)?;
        }
        for p in &ps {
            let _ = self.remove(*p);
            OrdArena::_check_invariants(&self)?;
        }
        Ok(())
    }
}

fn judge<X: Target>(r: Result<X, String>, d: &X::D) -> R<bool> {
    let good = d.good();
    match r {
        Ok(x) if good => {
            x.same(d)?;
            x.using()?;
            Ok(true)
        }
        Ok(x) if X::LENIENT => {
            drop(x);
            Ok(true)
        }
        Ok(_) => Err("a document that breaks the rules was accepted".into()),
        Err(e) if good => Err(format!("a proper document was refused: {e}")),
        Err(_) => Ok(true),
    }
}

/// Documents by number, in both formats
fn docs<X: Target>(c: &mut Ctx, name: &str, count: u64, make: impl Fn(u64) -> Option<X::D> + Sync + Copy) {
    c.enumerate(
        &format!("{} from {name}", X::NAME),
        count * 2,
        move |x| match make(x / 2) {
            None => "-".into(),
            Some(d) => format!("{} {}", FORMATS[(x % 2) as usize], d.text()),
        },
        move |x| {
            let d = match make(x / 2) {
                None => return Ok(false),
                Some(d) => d,
            };
            if x % 2 == 0 {
                judge(ron::from_str::<X>(&d.text()).map_err(|e| e.to_string()), &d)
            } else {
                let b = postcard::to_allocvec(&d).unwrap();
                judge(postcard::from_bytes::<X>(&b).map_err(|e| e.to_string()), &d)
            }
        },
    );
}

/// All short strings of bytes
fn bytes<X: Target>(c: &mut Ctx, len: u32) {
    const AL: [u8; 6] = [0, 1, 2, 3, 4, 0x81];
    let n = AL.len() as u64;
    let mut count = 0;
    for l in 0..=len {
        count += n.pow(l);
    }
    let make = move |mut x: u64| {
        let mut l = 0;
        while x >= n.pow(l) {
            x -= n.pow(l);
            l += 1;
        }
        (0..l).map(|i| AL[(x / n.pow(i) % n) as usize]).collect::<Vec<u8>>()
    };
    c.enumerate(
        &format!("{} from bytes", X::NAME),
        count,
        move |x| format!("{:?}", make(x)),
        move |x| {
            let b = make(x);
            // an index takes as much capacity, which is documented
            if b.windows(2).any(|w| w == [0x81, 0x81]) {
                return Ok(false);
            }
            let d: Result<X::D, _> = postcard::from_bytes(&b);
            let r: Result<X, String> = postcard::from_bytes(&b).map_err(|e| e.to_string());
            match d {
                Ok(d) => judge(r, &d),
                Err(_) => {
                    ensure!(r.is_err(), "bytes that are no document were accepted");
                    Ok(false)
                }
            }
        },
    );
}

/// claimed lengths that cannot be
fn lengths<X: Target>(c: &mut Ctx) {
    let ls: Vec<u64> = (0..64).flat_map(|b| [(1u64 << b) - 1, 1 << b, (1 << b) + 1]).chain([u64::MAX]).filter(|x| *x > 100).collect();
    let l2 = ls.clone();
    c.enumerate(
        &format!("{} from bytes with an impossible length", X::NAME),
        ls.len() as u64,
        move |x| l2[x as usize].to_string(),
        move |x| {
            let mut b = postcard::to_allocvec(&ls[x as usize]).unwrap();
            b.extend([1, 1, 1, 1, 1, 1]);
            let r: Result<X, _> = postcard::from_bytes(&b);
            ensure!(r.is_err(), "accepted");
            Ok(true)
        },
    );
}

fn pick(x: &mut u64, n: u64) -> u64 {
    let r = *x % n;
    *x /= n;
    r
}

/// A small index type: what does not fit
fn small(c: &mut Ctx) {
    c.enumerate(
        "more entries or larger indexes than the index type has room for",
        4 * 4 * 2,
        |x| format!("{:?} {} {}", ["arena", "chain", "nogen-chain", "ord"][(x % 4) as usize], [254, 255, 256, 257][(x / 4 % 4) as usize], FORMATS[(x / 16) as usize]),
        |x| {
            let n = [254u64, 255, 256, 257][(x / 4 % 4) as usize];
            let text = x / 16 == 0;
            let good = n <= 255;
            fn read<X: DeserializeOwned>(text: bool, s: &str, b: &[u8]) -> Result<X, String> {
                if text {
                    ron::from_str(s).map_err(|e| e.to_string())
                } else {
                    postcard::from_bytes(b).map_err(|e| e.to_string())
                }
            }
            macro_rules! go {
                ($t:ty, $s:expr, $b:expr) => {{
                    let r: Result<$t, String> = read(text, &$s, &$b);
                    same!(r.is_ok(), good, "read ({:?})", r.as_ref().err());
                    if let Ok(mut a) = r {
                        same!(a.len(), if x % 4 == 3 { n as usize } else { 1 }, "len()");
                        while a.len() < 255 {
                            let p = insert(&mut a);
                            ensure!(a.contains(p), "the pointer {p:?} from insertion is not valid");
                        }
                        ensure!(panics(|| insert(&mut a)).is_err(), "insertion into the exhausted index range did not panic");
                        same!(a.len(), 255, "len()");
                    }
                }};
            }
            trait Ins {
                fn ins(&mut self) -> P8D;
            }
            impl Ins for Arena<P8D, T> {
                fn ins(&mut self) -> P8D {
                    self.insert(T::new(1))
                }
            }
            impl Ins for ChainArena<P8D, T> {
                fn ins(&mut self) -> P8D {
                    self.insert_new(T::new(1))
                }
            }
            impl Ins for ChainNoGenArena<P8D, T> {
                fn ins(&mut self) -> P8D {
                    self.insert_new(T::new(1))
                }
            }
            impl Ins for OrdArena<P8D, u32, T> {
                fn ins(&mut self) -> P8D {
                    self.insert_nonhereditary(7, T::new(1))
                }
            }
            fn insert<I: Ins>(i: &mut I) -> P8D {
                i.ins()
            }
            // bytes hold a single byte for such an index
            match x % 4 {
                0 => {
                    if text || good {
                        go!(Arena<P8D, T>, format!("{{{n}:7}}"), [1, n as u8, 7])
                    }
                }
                1 => {
                    if text || good {
                        go!(ChainArena<P8D, T>, format!("{{{n}:(Some({n}),Some({n}),7)}}"), [1, n as u8, 1, n as u8, 1, n as u8, 7])
                    }
                }
                2 => {
                    if text || good {
                        go!(ChainNoGenArena<P8D, T>, format!("{{{n}:(None,None,7)}}"), [1, n as u8, 0, 0, 7])
                    }
                }
                _ => {
                    let d: OrdDoc = (0..n as u32).map(|i| (i, i)).collect();
                    go!(OrdArena<P8D, u32, T>, d.text(), postcard::to_allocvec(&d).unwrap())
                }
            }
            Ok(true)
        },
    );
}

fn malformed(c: &mut Ctx) {
    // lists of entries with indexes from a small set, in every order
    let ids = [0u64, 1, 2, 3, 4, 7, 200];
    let n = ids.len() as u64;
    let len = c.q(5, 7);
    docs::<Arena<PD, T>>(c, "index lists", (n + 1).pow(len), move |mut x| {
        let mut v = vec![];
        let mut ended = false;
        for i in 0..len {
            match pick(&mut x, n + 1) {
                0 => ended = true,
                // one number for each list
                _ if ended => return None,
                k => v.push((ids[k as usize - 1], i)),
            }
        }
        Some(v)
    });
    // links: which indexes there are, and every interlink
    let slots: [&[u64]; 6] = [&[1], &[1, 2], &[2, 1], &[1, 3], &[1, 2, 3], &[4, 1, 2]];
    let to = [None, Some(1), Some(2), Some(3), Some(4), Some(0)];
    let link = move |mut x: u64| -> Option<ChainDoc> {
        let s = slots[pick(&mut x, 6) as usize];
        let v = s.iter().enumerate().map(|(n, i)| (*i, (to[pick(&mut x, 6) as usize], to[pick(&mut x, 6) as usize], n as u32))).collect();
        if x == 0 {
            Some(v)
        } else {
            None
        }
    };
    docs::<ChainArena<PD, T>>(c, "interlinks", 6 * 36u64.pow(3), link);
    docs::<ChainNoGenArena<PD, T>>(c, "interlinks", 6 * 36u64.pow(3), link);
    let four = move |mut x: u64| -> Option<ChainDoc> {
        let to = [None, Some(1), Some(2), Some(3), Some(4)];
        Some((1..=4).map(|i| (i, (to[pick(&mut x, 5) as usize], to[pick(&mut x, 5) as usize], i as u32))).collect())
    };
    docs::<ChainArena<PD, T>>(c, "interlinks of four", 25u64.pow(4), four);
    docs::<ChainNoGenArena<PD, T>>(c, "interlinks of four", 25u64.pow(4), four);
    {
        let five = move |mut x: u64| -> Option<ChainDoc> {
            // mostly proper: previous ones by number, next ones by the inverse with one deviation
            let mut v: ChainDoc = (1..=5).map(|i| (i, (None, None, i as u32))).collect();
            for i in 0..5usize {
                let p = pick(&mut x, 6);
                if p > 0 {
                    v[i].1 .0 = Some(p);
                    v[p as usize - 1].1 .1 = Some(i as u64 + 1);
                }
            }
            let at = pick(&mut x, 5) as usize;
            let p = pick(&mut x, 6);
            v[at].1 .1 = if p == 0 { None } else { Some(p) };
            Some(v)
        };
        docs::<ChainArena<PD, T>>(c, "interlinks of five", 6u64.pow(6) * 5, five);
        docs::<ChainNoGenArena<PD, T>>(c, "interlinks of five", 6u64.pow(6) * 5, five);
    }
    // two keys with every interlink, and every value
    let two = move |mut x: u64| -> Option<SurDoc> {
        let to = [None, Some(1), Some(2), Some(3)];
        let n = pick(&mut x, 3);
        let ks = (1..=n).map(|i| (i, (to[pick(&mut x, 4) as usize], to[pick(&mut x, 4) as usize], (i as u32, pick(&mut x, 4))))).collect();
        let m = pick(&mut x, 4);
        let vids: &[u64] = [&[][..], &[1], &[1, 2], &[2, 3]][m as usize];
        let vs = vids.iter().map(|i| (*i, (10 + *i as u32, pick(&mut x, 4)))).collect();
        if x == 0 {
            Some((ks, vs))
        } else {
            None
        }
    };
    docs::<SurjectArena<PD, T, T>>(c, "two keys", 3 * 64 * 64 * 4 * 16, two);
    let three = move |mut x: u64| -> Option<SurDoc> {
        let to = [None, Some(1), Some(2), Some(3)];
        let ks = (1..=3).map(|i| (i, (to[pick(&mut x, 4) as usize], to[pick(&mut x, 4) as usize], (i as u32, 1 + pick(&mut x, 2))))).collect();
        let vids: &[u64] = [&[1][..], &[2, 1]][pick(&mut x, 2) as usize];
        let vs = vids.iter().map(|i| (*i, (10 + *i as u32, 1 + pick(&mut x, 3)))).collect();
        if x == 0 {
            Some((ks, vs))
        } else {
            None
        }
    };
    docs::<SurjectArena<PD, T, T>>(c, "three keys", 32u64.pow(3) * 2 * 9, three);
    // cyclic chains throughout: every permutation of the keys, every assignment of values and counts
    let cycles = move |keys: u64| {
        move |mut x: u64| -> Option<SurDoc> {
            let mut rest: Vec<u64> = (1..=keys).collect();
            let mut next = vec![];
            for i in 0..keys {
                next.push(rest.remove(pick(&mut x, keys - i) as usize));
            }
            let ks = (1..=keys)
                .map(|i| {
                    let prev = next.iter().position(|n| *n == i).unwrap() as u64 + 1;
                    (i, (Some(prev), Some(next[i as usize - 1]), (i as u32, 1 + pick(&mut x, 3))))
                })
                .collect();
            let m = pick(&mut x, 3) + 1;
            let vs = (1..=m).map(|i| (i, (10 + i as u32, 1 + pick(&mut x, keys)))).collect();
            if x == 0 {
                Some((ks, vs))
            } else {
                None
            }
        }
    };
    let fact = [1u64, 1, 2, 6, 24, 120, 720];
    for keys in 1..=5u64 {
        docs::<SurjectArena<PD, T, T>>(c, &format!("cyclic chains of {keys} keys"), fact[keys as usize] * 3u64.pow(keys as u32) * 3 * keys.pow(3), cycles(keys));
    }
    // entries with keys in every order
    let len = c.q(6, 8);
    docs::<OrdArena<PD, u32, T>>(c, "keys in every order", 4u64.pow(len), move |mut x| {
        let mut v = vec![];
        let mut ended = false;
        for i in 0..len {
            match pick(&mut x, 4) {
                0 => ended = true,
                _ if ended => return None,
                k => v.push((k as u32, i)),
            }
        }
        Some(v)
    });
    docs::<OrdArena<PD, u32, T>>(c, "sorted keys", 300, move |x| Some((0..x as u32).map(|k| (k, k)).collect()));
    bytes::<Arena<PD, T>>(c, c.q(7, 8));
    bytes::<ChainArena<PD, T>>(c, c.q(7, 8));
    bytes::<ChainNoGenArena<PD, T>>(c, c.q(7, 8));
    bytes::<SurjectArena<PD, T, T>>(c, c.q(7, 8));
    bytes::<OrdArena<PD, u32, T>>(c, c.q(7, 8));
    lengths::<Arena<PD, T>>(c);
    lengths::<ChainArena<PD, T>>(c);
    lengths::<ChainNoGenArena<PD, T>>(c);
    lengths::<SurjectArena<PD, T, T>>(c);
    lengths::<OrdArena<PD, u32, T>>(c);
    small(c);
}

fn main() {
    run(|c| match c.prop.as_str() {
        "X06" => {
            let am = wa::G_TRY | wa::G_REPL | wa::G_SWAP | wa::G_BULK | wa::G_SHRINK | wa::G_RESERVE | wa::G_DRAIN | wa::G_CLONE;
            c.explore::<A<PD>>("arena", ac(am, c.q(8, 9)), deep());
            c.explore::<A<PN>>("arena without generations", ac(am, c.q(7, 8)), deep());
            c.explore::<A<P88>>("arena 8 bit", ac(am, c.q(6, 7)), deep());
            let cm = wc::G_INV | wc::G_REPL | wc::G_CHAIN | wc::G_LINKS | wc::G_BULK | wc::G_SHRINK | wc::G_RESERVE | wc::G_CLONE;
            c.explore::<C<PD>>("chain", cc(cm, c.q(5, 6)), deep());
            c.explore::<N<PD>>("nogen-chain", cc(cm, c.q(5, 6)), deep());
            c.explore::<C<P8N>>("chain 8 bit without generations", cc(cm, 4), deep());
            let om = wo::G_INV | wo::G_REMOVE | wo::G_EQ | wo::G_NON | wo::G_BULK | wo::G_SHRINK | wo::G_CLONE;
            c.explore::<O<PD>>("ord", oc(om, 4), deep());
            c.explore::<O<PD>>("ord, larger", wo::Cfg { inert: false, ..oc(wo::G_REMOVE | wo::G_SHRINK, 8) }, dedup_to(c.q(8, 10)));
            c.explore::<O<P88>>("ord 8 bit", oc(om, 4), deep());
            let sm = ws::G_INV | ws::G_REMOVE | ws::G_REMOVE_SET | ws::G_BULK | ws::G_SHRINK | ws::G_RESERVE | ws::G_CLONE;
            c.explore::<S<PD>>("surject", sc(sm, c.q(4, 5)), deep());
            c.explore::<S<PN>>("surject without generations", sc(sm, c.q(4, 5)), deep());
            sizes(c, c.q(60, 200));
            trees(c, c.q(200, 600));
            huge(c);
        }
        "O03" => balance(c, c.q(1200, 5000)),
        "X07" => malformed(c),
        _ => (),
    })
}
