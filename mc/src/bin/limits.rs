//! Generation counting and its end, capacity and the end of the index range.

use mc::book::Book;
use mc::kind::*;
use mc::*;
use std::fmt;
use std::marker::PhantomData;
use triple_arena::utils::ChainNoGenArena;
use triple_arena::{Advancer, Arena, ChainArena, OrdArena, Ptr, SurjectArena};

type A<P> = Arena<P, T>;
type C<P> = ChainArena<P, T>;
type N<P> = ChainNoGenArena<P, T>;
type O<P> = OrdArena<P, OrdK, T>;
type S<P> = SurjectArena<P, T, T>;

struct Cfg {
    max_cap: usize,
    /// generation at which the histories begin
    start: u64,
}

#[derive(Clone, Copy)]
#[repr(C)]
struct Op {
    k: u8,
    v: u8,
    p: u8,
    q: u8,
}
impl fmt::Debug for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}{}({},{})", ["ins", "inv", "non"][self.k as usize], self.v, self.p, self.q)
    }
}

struct GenWorld<P: Px, K: Kind<P>> {
    a: K,
    b: Book<u32>,
    next: u32,
    _p: PhantomData<P>,
}

impl<P: Px, K: Kind<P>> GenWorld<P, K> {
    fn id(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn live_map(&self) -> R<Vec<(Raw, u32)>> {
        let mut v = vec![];
        for p in self.a.ptrs() {
            let id = self.a.id(p).ok_or_else(|| format!("the advancer returned {p:?}, which is not valid"))?;
            v.push((p.raw(), id));
        }
        v.sort();
        Ok(v)
    }
}

impl<P: Px, K: Kind<P>> World for GenWorld<P, K> {
    type Op = Op;
    type Cfg = Cfg;
    fn new(cfg: &Cfg) -> Self {
        let mut w = GenWorld { a: K::new(), b: Book::new::<P>(), next: 0, _p: PhantomData };
        if cfg.start > 3 && P::HAS_GEN {
            // by invalidations and a final removal
            let mut p = w.a.ins(0, 1, None).unwrap();
            w.b.issued.push(p.raw());
            let (mut n, mut g) = (0, 2);
            while g + 1 < cfg.start {
                p = w.a.inv(1, p, 0).ok().flatten().unwrap_or(p);
                n += 1;
                g = w.a.gen();
                // the last ones are remembered
                if g + 6 > cfg.start {
                    w.b.issued.push(p.raw());
                }
                if n > 70_000 {
                    break;
                }
            }
            let _ = w.a.inv(0, p, 0);
            w.b.gen = cfg.start;
            w.b.cap = w.a.cap();
            w.next = 1;
        }
        w
    }
    fn ops(&self, cfg: &Cfg, out: &mut Vec<Op>) {
        let live: Vec<u8> = self.b.live.keys().map(|x| *x as u8).collect();
        if self.b.len() < cfg.max_cap && (self.b.len() < self.b.cap || self.b.cap * 2 <= cfg.max_cap) {
            for v in 0..K::INS.len() as u8 {
                out.push(Op { k: 0, v, p: 0, q: 0 });
                for p in live.iter().skip(1) {
                    out.push(Op { k: 0, v, p: *p, q: 0 });
                }
            }
        }
        let room = if P::HAS_GEN { P::max_gen() - self.b.gen } else { u64::MAX };
        for (v, (n, e)) in K::INV.iter().enumerate() {
            match e {
                Eff::AllGone | Eff::AllMoved => {
                    // whether such an operation on nothing counts is left open
                    if !live.is_empty() || room > 0 {
                        out.push(Op { k: 1, v: v as u8, p: 0, q: 0 });
                    }
                }
                Eff::Drained => {
                    let hi = live.len() as u64 + 2;
                    // a draining iterator that panics clears when it is dropped by that panic, which panics again
                    if room >= hi || (room == 0 && !live.is_empty() && n.contains("abandoned")) {
                        out.push(Op { k: 1, v: v as u8, p: 0, q: 0 });
                    }
                }
                _ => {
                    for p in &live {
                        out.push(Op { k: 1, v: v as u8, p: *p, q: 0 });
                    }
                }
            }
        }
        for v in 0..K::NON.len() as u8 {
            let n = K::NON[v as usize];
            if n.contains("nothing") || n == "clone" {
                out.push(Op { k: 2, v, p: 0, q: 0 });
            } else if n.starts_with("reserve") {
                if self.b.cap < cfg.max_cap {
                    out.push(Op { k: 2, v, p: 0, q: 0 });
                }
            } else {
                for p in &live {
                    for q in &live {
                        out.push(Op { k: 2, v, p: *p, q: *q });
                        if n.contains("break") || n.contains("equal") || n.contains("keep") {
                            break;
                        }
                    }
                }
            }
        }
    }
    fn apply(&mut self, _: &Cfg, op: Op) -> R {
        let id = self.id();
        let v = op.v as usize;
        let ptr = |b: &Book<u32>, x: u8| if x == 0 { P::invalid() } else { P::mk(b.raw(x as usize)) };
        let p = ptr(&self.b, op.p);
        let q = ptr(&self.b, op.q);
        let gen = self.b.gen;
        match op.k {
            0 => {
                let anchor =
                    if op.p == 0 { self.b.live.keys().next().map(|i| P::mk(self.b.raw(*i))) } else { Some(p) };
                let r = self.a.ins(v, id, anchor);
                if let Some(r) = r {
                    self.b.issue(r.raw(), id)?;
                    if P::HAS_GEN {
                        same!(r.raw().1, gen, "generation of a pointer issued by {}", K::INS[v]);
                    }
                }
                same!(self.a.gen(), gen, "generation() after {}", K::INS[v]);
            }
            1 => {
                let (name, eff) = K::INV[v];
                let before = self.live_map()?;
                let set: Vec<Raw> = if eff == Eff::SetGone { self.a.set(p).iter().map(|x| x.raw()).collect() } else { vec![] };
                let n = before.len() as u64;
                let (lo, hi) = match eff {
                    Eff::AllGone | Eff::AllMoved => ((n > 0) as u64, 1),
                    Eff::Drained => ((n > 0) as u64, n + 2),
                    _ => (1, 1),
                };
                let room = if P::HAS_GEN { P::max_gen() - gen } else { u64::MAX };
                if room < lo {
                    // nothing is left to count with
                    let a = &mut self.a;
                    ensure!(
                        panics(|| a.inv(v, p, id)).is_err(),
                        "{name} did not panic with the generation counter at its maximum {gen}"
                    );
                    same!(self.a.gen(), gen, "generation() after {name} panicked at the maximum");
                    // what is still there is what it was
                    let after = self.live_map()?;
                    for x in &after {
                        ensure!(before.contains(x), "after the panic of {name}, {x:?} is reachable but was not before");
                    }
                    self.b.live.retain(|i, (g, _)| after.iter().any(|x| x.0 == (*i, *g)));
                } else {
                    let r = self.a.inv(v, p, id)?;
                    let g = self.a.gen();
                    if P::HAS_GEN {
                        ensure!(
                            g >= gen + lo && g <= gen + hi,
                            "{name} changed the generation from {gen} to {g}, expected an increase of {lo}..={hi}"
                        );
                        self.b.gen = g;
                    }
                    match eff {
                        Eff::Gone => {
                            self.b.live.remove(&(op.p as usize));
                        }
                        Eff::Moved | Eff::Replaced => {
                            let r = r.unwrap().raw();
                            self.b.reissue(op.p as usize, r)?;
                            if P::HAS_GEN {
                                same!(r.1, g, "generation of the pointer made by {name}");
                            }
                            if eff == Eff::Replaced {
                                self.b.live.get_mut(&r.0).unwrap().1 = id;
                            }
                        }
                        Eff::SetGone => {
                            self.b.live.retain(|i, (g, _)| !set.contains(&(*i, *g)));
                        }
                        Eff::AllGone | Eff::Drained => self.b.live.clear(),
                        Eff::AllMoved => {
                            self.b.live.clear();
                            let after = self.live_map()?;
                            same!(after.len(), before.len(), "elements after {name}");
                            for (r, id) in after {
                                ensure!(before.iter().any(|x| x.1 == id), "{name} made up an element");
                                self.b.issue(r, id)?;
                                if P::HAS_GEN {
                                    same!(r.1, g, "generation of a pointer made by {name}");
                                }
                            }
                        }
                    }
                }
            }
            _ => {
                let before = self.live_map()?;
                self.a.non(v, p, q)?;
                let after = self.live_map()?;
                same!(self.a.gen(), gen, "generation() after {}", K::NON[v]);
                same!(
                    after.iter().map(|x| x.0).collect::<Vec<_>>(),
                    before.iter().map(|x| x.0).collect::<Vec<_>>(),
                    "pointers after {}",
                    K::NON[v]
                );
                for (r, id) in after {
                    self.b.live.get_mut(&r.0).unwrap().1 = id;
                }
            }
        }
        self.b.cap = self.a.cap();
        Ok(())
    }
    fn observe(&mut self, _: &Cfg) -> R {
        same!(self.a.gen(), self.b.gen, "generation()");
        same!(self.a.len(), self.b.len(), "len()");
        let want: Vec<(Raw, u32)> = self.b.live.iter().map(|(i, (g, id))| ((*i, *g), *id)).collect();
        same!(self.live_map()?, want, "elements with their pointers");
        for r in &self.b.issued {
            let p = P::mk(*r);
            same!(self.a.has(p), self.b.valid(*r), "contains({p:?})");
            same!(self.a.id(p), self.b.get(*r).copied(), "element of {p:?}");
        }
        self.a.sane().map_err(|e| format!("internal invariants: {e}"))?;
        tv::check_live(self.a.values())
    }
    fn finish(self, _: &Cfg, key: &mut KeyHash) -> R {
        self.b.key(key, true);
        key.put(self.b.gen);
        self.a.shape(key);
        // free slots in the order in which they are used
        let mut a = self.a;
        let mut n = 0;
        while a.len() < a.cap() && n < 40 {
            n += 1;
            let p = a.ins(0, 7_000_000 + n, None).ok_or("insertion refused")?;
            key.put(p.raw().0 as u64);
        }
        let n = a.len();
        same!(a.eat().len(), n, "number of elements handed out by consuming iteration");
        Ok(())
    }
}

fn gens<P: Px + 'static, K: Kind<P> + 'static>(c: &mut Ctx, pn: &str, start: u64, max_cap: usize, lim: Lim) {
    c.explore::<GenWorld<P, K>>(
        &format!("generations of {} {pn} from {start}, capacity {max_cap}", K::NAME),
        Cfg { max_cap, start },
        lim,
    );
}

/// An arena filled element by element, watched
struct Fill<P: Px, K: Kind<P>> {
    a: K,
    ptrs: Vec<(P, u32)>,
    used: Vec<bool>,
    cap: usize,
    v: usize,
}
impl<P: Px, K: Kind<P>> Fill<P, K> {
    fn new(v: usize) -> Self {
        Fill { a: K::new(), ptrs: vec![], used: vec![], cap: 0, v }
    }
    fn reserve(&mut self, n: usize) -> R {
        self.a.reserve(n);
        let c = self.a.cap();
        ensure!(
            c >= self.cap && c >= self.ptrs.len() + n && c as u128 <= P::max_inx(),
            "reserve({n}) with length {} and capacity {} gave capacity {c}",
            self.ptrs.len(),
            self.cap
        );
        self.cap = c;
        Ok(())
    }
    /// Chooses the variant, or the simplest one where it is not possible
    fn raw_ins(&mut self, id: u32) -> P {
        let n = K::INS[self.v];
        // anchors for insertion at an end: the last inserted; else the first
        let anchor = if n.contains("end") || n.contains("start") { self.ptrs.last() } else { self.ptrs.first() };
        let anchor = anchor.map(|x| x.0);
        match self.a.ins(self.v, id, anchor) {
            Some(p) => p,
            // there is nothing yet to insert beside
            None => self.a.ins(if n == "insert between" { 1 } else { 4 % K::INS.len() }, id, anchor).unwrap_or_else(|| self.a.ins(0, id, None).unwrap()),
        }
    }
    fn ins(&mut self, id: u32) -> R {
        let full = self.ptrs.len() == self.cap;
        let p = self.raw_ins(id);
        let c = self.a.cap();
        if full {
            ensure!(c > self.cap && c as u128 <= P::max_inx(), "capacity went from {} to {c} on insertion into a full arena", self.cap);
            self.cap = c;
        } else {
            same!(c, self.cap, "capacity() after insertion into an arena with {} elements", self.ptrs.len());
        }
        let i = p.raw().0;
        ensure!(i >= 1 && i <= c, "{p:?} issued with capacity {c}");
        if self.used.len() <= i {
            self.used.resize(i + 1, false);
        }
        ensure!(!self.used[i], "{p:?} issued twice");
        self.used[i] = true;
        self.ptrs.push((p, id));
        same!(self.a.len(), self.ptrs.len(), "len()");
        Ok(())
    }
    fn same(&self) -> R {
        same!(self.a.len(), self.ptrs.len(), "len()");
        same!(self.a.cap(), self.cap, "capacity()");
        for (p, id) in &self.ptrs {
            same!(self.a.id(*p), Some(*id), "element of {p:?}");
        }
        same!(self.a.ptrs().len(), self.ptrs.len(), "number of pointers advanced over");
        self.a.sane().map_err(|e| format!("internal invariants: {e}"))
    }
    fn remove(&mut self, n: usize) -> R {
        let (p, _) = self.ptrs.remove(n);
        self.a.inv(0, p, 0)?;
        self.used[p.raw().0] = false;
        Ok(())
    }
    /// With the index range exhausted: insertion and reservation panic and change nothing
    fn at_the_end(&mut self) -> R {
        let max = P::max_inx() as usize;
        same!(self.ptrs.len(), max, "elements");
        let gen = self.a.gen();
        for v in 0..K::INS.len() {
            for anchor in [None, Some(self.ptrs[0].0), Some(self.ptrs[max / 2].0)] {
                let a = &mut self.a;
                // a variant that is not possible there returns without effect
                if let Ok(Some(p)) = panics(|| a.ins(v, 5_000_000, anchor)) {
                    return Err(format!("{} into a full index range gave {p:?}", K::INS[v]));
                }
            }
            same!(self.a.len(), max, "len() after {} panicked at the end of the index range", K::INS[v]);
        }
        for n in [1, 2, max, usize::MAX - max, usize::MAX - 1, usize::MAX] {
            let a = &mut self.a;
            ensure!(panics(|| a.reserve(n)).is_err(), "reserve({n}) at the end of the index range did not panic");
        }
        let a = &mut self.a;
        ensure!(panics(|| a.reserve(0)).is_ok(), "reserve(0) at the end of the index range panicked");
        same!(self.a.gen(), gen, "generation()");
        self.same()?;
        tv::check_live(self.a.values())
    }
}

const TAILS: &[&str] = &["refill", "clear", "clear_and_shrink", "compress", "clone", "clone_from", "consume", "remove all"];

fn index_range<P: Px, K: Kind<P>>(c: &mut Ctx, pn: &str, caps: Vec<usize>) {
    let max = P::max_inx() as usize;
    let (ni, nc, nt) = (K::INS.len() as u64, caps.len() as u64, TAILS.len() as u64);
    let dec = move |x: u64| ((x % ni) as usize, (x / ni % nc) as usize, (x / ni / nc) as usize);
    let caps2 = caps.clone();
    let clear = K::INV.iter().position(|x| x.0 == "clear").unwrap();
    c.enumerate(
        &format!("the whole index range of {} {pn}", K::NAME),
        ni * nc * nt,
        move |x| {
            let (v, i, t) = dec(x);
            format!("reserve({}), then {} until the index range is exhausted, then {}", caps2[i], K::INS[v], TAILS[t])
        },
        move |x| {
            let (v, i, t) = dec(x);
            let mut f = Fill::<P, K>::new(v);
            f.reserve(caps[i])?;
            for n in 0..max {
                f.ins(n as u32)?;
            }
            f.at_the_end()?;
            match t {
                0 => {
                    for n in [0, max / 2, max - 1] {
                        f.remove(n)?;
                        f.ins(3_000_000 + n as u32)?;
                    }
                    f.at_the_end()?;
                }
                1 | 2 => {
                    let g = f.a.gen();
                    f.a.inv(clear + t - 1, P::invalid(), 0)?;
                    if P::HAS_GEN {
                        same!(f.a.gen(), g + 1, "generation() after {}", TAILS[t]);
                    }
                    f.ptrs.clear();
                    f.used.clear();
                    f.cap = if t == 1 { max } else { 0 };
                    f.same()?;
                    for n in 0..max {
                        f.ins(n as u32)?;
                    }
                    f.at_the_end()?;
                }
                3 => {
                    let n = f.a.values();
                    f.remove(max / 3)?;
                    f.a.inv(clear + 2, P::invalid(), 0)?;
                    same!(f.a.cap(), max - 1, "capacity() after compression");
                    let mut ids: Vec<u32> = f.ptrs.iter().map(|x| x.1).collect();
                    ids.sort();
                    f.ptrs = f.a.ptrs().iter().map(|p| (*p, f.a.id(*p).unwrap_or(u32::MAX))).collect();
                    let mut ids2: Vec<u32> = f.ptrs.iter().map(|x| x.1).collect();
                    ids2.sort();
                    same!(ids2, ids, "elements after compression");
                    ensure!(f.a.values() <= n, "values");
                    f.cap = max - 1;
                    f.used = vec![true; max];
                    f.ins(77)?;
                    f.at_the_end()?;
                }
                4 | 5 => {
                    let mut g = Fill::<P, K>::new(v);
                    if t == 4 {
                        g.a = f.a.cl();
                    } else {
                        for n in 0..7 {
                            g.ins(9_000 + n)?;
                        }
                        g.a.cl_from(&f.a);
                    }
                    g.ptrs = f.ptrs.clone();
                    g.used = f.used.clone();
                    g.cap = max;
                    g.same()?;
                    drop(f.a);
                    g.at_the_end()?;
                    g.remove(max / 2)?;
                    g.ins(1)?;
                    return Ok(true);
                }
                6 => {
                    let mut want: Vec<(Raw, u32)> = f.ptrs.iter().map(|x| (x.0.raw(), x.1)).collect();
                    let mut got: Vec<(Raw, u32)> = f.a.eat().into_iter().map(|x| (x.0.raw(), x.1)).collect();
                    want.sort();
                    got.sort();
                    same!(got.len(), want.len(), "number of elements consumed");
                    ensure!(got == want, "consuming iteration handed out wrong elements");
                    tv::check_live(0)?;
                    return Ok(true);
                }
                _ => {
                    // from the middle outwards, as far as the counter allows
                    let room = if P::HAS_GEN { P::max_gen() - f.a.gen() } else { u64::MAX };
                    let mut n = 0;
                    while !f.ptrs.is_empty() && n < room {
                        f.remove(f.ptrs.len() / 2)?;
                        n += 1;
                    }
                    f.same()?;
                    while f.ptrs.len() < max {
                        f.ins(n as u32)?;
                        n += 1;
                    }
                    f.at_the_end()?;
                }
            }
            Ok(true)
        },
    );
}

/// `reserve` with every amount from every small fill, capacities are as promised
fn reserving<P: Px, K: Kind<P>>(c: &mut Ctx, pn: &str, m: usize) {
    let m1 = m as u64 + 1;
    let max = P::max_inx();
    let extra: Vec<usize> = [0usize, 1, 2, 5, 100, 126, 127, 128, 129, 130, 250, 251, 252, 253, 254, 255, 256, 257, 1000].to_vec();
    let ne = extra.len() as u64;
    let e2 = extra.clone();
    let dec = move |x: u64| ((x % m1) as usize, (x / m1 % m1) as usize, (x / m1 / m1 % m1) as usize, (x / m1 / m1 / m1) as usize);
    c.enumerate(
        &format!("reserving in {} {pn}", K::NAME),
        m1 * m1 * m1 * ne,
        move |x| {
            let (r, n, d, e) = dec(x);
            format!("reserve({r}), {n} insertions, {d} removals, reserve({}), insert until it grows", e2[e])
        },
        move |x| {
            let (r, n, d, e) = dec(x);
            if d > n {
                return Ok(false);
            }
            let mut f = Fill::<P, K>::new(0);
            f.reserve(r)?;
            for i in 0..n {
                f.ins(i as u32)?;
            }
            for i in 0..d {
                f.remove(i % f.ptrs.len())?;
            }
            f.same()?;
            let e = extra[e];
            let must_panic = (f.ptrs.len() + e) as u128 > max;
            let may_panic = (f.cap + e) as u128 > max;
            let cap = f.cap;
            let a = &mut f.a;
            match panics(|| a.reserve(e)) {
                Err(()) => ensure!(may_panic, "reserve({e}) with length {} and capacity {cap} panicked", f.ptrs.len()),
                Ok(()) => {
                    ensure!(!must_panic, "reserve({e}) beyond the index range did not panic");
                    f.cap = f.a.cap();
                    ensure!(f.cap >= cap && f.cap >= f.ptrs.len() + e, "reserve({e}) gave capacity {}, length {}, before {cap}", f.cap, f.ptrs.len());
                    ensure!(f.cap <= 4 * (cap + e) + 64, "reserve({e}) gave capacity {}, before {cap}", f.cap);
                }
            }
            f.same()?;
            // exactly the spare capacity can be used without growth
            while f.ptrs.len() < f.cap {
                f.ins(500)?;
            }
            if (f.cap as u128) < max {
                f.ins(501)?;
            }
            f.same()?;
            tv::check_live(f.a.values())?;
            Ok(true)
        },
    );
}

/// Construction with every capacity
fn constructing<P: Px, K: Kind<P>>(c: &mut Ctx, pn: &str, ns: Vec<usize>) {
    let n2 = ns.clone();
    c.enumerate(
        &format!("constructing {} {pn} with a capacity", K::NAME),
        ns.len() as u64,
        move |x| format!("with_capacity({})", n2[x as usize]),
        move |x| {
            let n = ns[x as usize];
            let mut f = Fill::<P, K>::new(0);
            let gen = f.a.gen();
            let beyond = n as u128 > P::max_inx();
            match panics(|| K::with_cap(n)) {
                Err(()) => {
                    ensure!(beyond, "with_capacity({n}) panicked");
                    return Ok(true);
                }
                Ok(a) => f.a = a,
            }
            ensure!(!beyond, "with_capacity({n}) did not panic");
            f.cap = f.a.cap();
            ensure!(f.cap >= n && f.cap <= 4 * n + 64 && f.cap as u128 <= P::max_inx(), "with_capacity({n}) gave capacity {}", f.cap);
            same!(f.a.gen(), gen, "generation of an arena made with_capacity({n})");
            f.same()?;
            while f.ptrs.len() < f.cap {
                f.ins(f.ptrs.len() as u32)?;
            }
            f.same()?;
            if (f.cap as u128) < P::max_inx() {
                f.ins(70_000)?;
                f.same()?;
            }
            Ok(true)
        },
    );
}

/// The two capacities of a surject arena
fn constructing_surject(c: &mut Ctx, small: u64) {
    const MORE: [usize; 16] = [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1025];
    let two = move |x: u64| if x < small { x as usize } else { MORE[(x - small) as usize] };
    let m = small + MORE.len() as u64;
    c.enumerate(
        "constructing surject arenas with two capacities",
        m * m * 2,
        move |x| format!("{} keys, {} values, {}", two(x % m), two(x / m % m), if x / m / m == 0 { "with_capacity" } else { "reserve_keys and reserve_vals" }),
        move |x| {
            let (k, v) = (two(x % m), two(x / m % m));
            let mut a: SurjectArena<PD, u32, u32> = if x / m / m == 0 {
                SurjectArena::with_capacity(k, v)
            } else {
                let mut a = SurjectArena::default();
                a.reserve_vals(v);
                a.reserve_keys(k);
                a
            };
            let (ck, cv) = (a.capacity_keys(), a.capacity_vals());
            ensure!(ck >= k && cv >= v && ck <= 4 * k + 64 && cv <= 4 * v + 64, "capacities {ck} and {cv} for {k} keys and {v} values");
            ensure!(a.is_empty() && a.len_keys() == 0 && a.len_vals() == 0, "not empty");
            let n = ck.min(cv);
            let mut p = None;
            for i in 0..n {
                p = Some(a.insert(i as u32, 0));
            }
            if let Some(p) = p {
                for i in n..ck {
                    a.insert_key(p, i as u32).map_err(|_| "refused")?;
                }
            }
            same!((a.capacity_keys(), a.capacity_vals()), (ck, cv), "capacities after filling");
            same!(a.len_vals(), n, "number of values");
            let _ = a.insert(0, 0);
            if ck > cv && n > 0 || ck == cv {
                ensure!(a.capacity_vals() > cv, "values do not fit");
            }
            ensure!(a.capacity_keys() >= a.len_keys() && a.capacity_vals() >= a.len_vals(), "length above capacity");
            SurjectArena::_check_invariants(&a).map_err(|e| e.to_string())?;
            Ok(true)
        },
    );
}

/// Memory that is held after shrinking
fn released(c: &mut Ctx) {
    let ns = [300usize, 511, 1000, 3000];
    let hows = ["compress_and_shrink", "compress_and_shrink_recaster", "clear_and_shrink", "clear, compress_and_shrink", "shrink twice", "clone_from an empty one, clear_and_shrink"];
    let (h, k) = (hows.len(), 5);
    c.enumerate(
        "memory held after shrinking",
        (ns.len() * h * k * 4) as u64,
        move |x| {
            let x = x as usize;
            format!("{}: {} entries, all but {} removed, {}", ["arena", "chain", "nogen-chain", "ord", "surject"][x % k], ns[x / k / h % ns.len()], x / k / h / ns.len(), hows[x / k % h])
        },
        move |x| {
            let x = x as usize;
            let (how, n, keep) = (x / k % h, ns[x / k / h % ns.len()], x / k / h / ns.len());
            let start = alloc::net().0;
            let held = || alloc::net().0 - start;
            macro_rules! go {
                ($new:expr, $a:ident, $i:ident, $ins:expr, $p:ident, $rem:expr) => {{
                    let mut $a = $new;
                    let mut last = None;
                    for $i in 0..n as u32 {
                        let _ = last;
                        #[allow(unused_variables)]
                        let $p: Option<PD> = last;
                        last = Some($ins);
                    }
                    let full = held();
                    let mut adv = $a.advancer();
                    while let Some($p) = adv.advance(&$a) {
                        if $a.len_now() > keep {
                            let _ = $rem;
                        }
                    }
                    same!($a.len_now(), keep, "length");
                    let mut left = keep;
                    match how {
                        0 => $a.compress_and_shrink(),
                        1 => drop($a.compress_and_shrink_recaster()),
                        2 => {
                            $a.clear_and_shrink();
                            left = 0;
                        }
                        3 => {
                            $a.clear();
                            $a.compress_and_shrink();
                            left = 0;
                        }
                        4 => {
                            $a.compress_and_shrink();
                            $a.compress_and_shrink();
                        }
                        _ => {
                            $a.clone_from(&$new);
                            $a.clear_and_shrink();
                            left = 0;
                        }
                    }
                    same!($a.len_now(), left, "length after shrinking");
                    let now = held();
                    ensure!(full > 0, "{n} entries need no memory");
                    ensure!(now <= full / 4, "{full} bytes were held for {n} entries, {now} are held for {left} after shrinking");
                    drop($a);
                    Ok(true)
                }};
            }
            match x % k {
                0 => go!(Arena::<PD, u32>::new(), a, i, a.insert(i), p, a.remove(p)),
                1 => go!(ChainArena::<PD, u32>::new(), a, i, a.insert((p.filter(|_| i % 5 != 0), None), i).map_err(|_| "refused")?, p, a.remove(p)),
                2 => go!(ChainNoGenArena::<PD, u32>::new(), a, i, a.insert((p.filter(|_| i % 5 != 0).map(|p| p.inx()), None), i).map_err(|_| "refused")?, p, a.remove(p)),
                3 => go!(OrdArena::<PD, u32, u32>::new(), a, i, a.insert(i * 7919 % 5003, i).0, p, a.remove(p)),
                _ => go!(SurjectArena::<PD, u32, u32>::new(), a, i, if i % 5 == 0 { a.insert(i, i) } else { a.insert_key(p.unwrap(), i).map_err(|_| "refused")? }, p, a.remove_key(p)),
            }
        },
    );
}
trait LenNow {
    fn len_now(&self) -> usize;
}
impl<X> LenNow for Arena<PD, X> {
    fn len_now(&self) -> usize {
        self.len()
    }
}
impl<X> LenNow for ChainArena<PD, X> {
    fn len_now(&self) -> usize {
        self.len()
    }
}
impl<X> LenNow for ChainNoGenArena<PD, X> {
    fn len_now(&self) -> usize {
        self.len()
    }
}
impl<X, Y> LenNow for OrdArena<PD, X, Y> {
    fn len_now(&self) -> usize {
        self.len()
    }
}
impl<X, Y> LenNow for SurjectArena<PD, X, Y> {
    fn len_now(&self) -> usize {
        self.len_keys()
    }
}

/// Clones back and forth: capacities stay within the larger of the two
fn clone_growth<P: Px, K: Kind<P>>(c: &mut Ctx, pn: &str, m: usize) {
    let m1 = m as u64 + 1;
    c.enumerate(
        &format!("cloning {} {pn} back and forth", K::NAME),
        m1 * m1 * m1 * m1,
        move |x| format!("reserve({}), {} insertions; reserve({}), {} insertions; 12 clones to and fro", x % m1, x / m1 % m1, x / m1 / m1 % m1, x / m1 / m1 / m1),
        move |x| {
            let mut f = Fill::<P, K>::new(0);
            let mut g = Fill::<P, K>::new(0);
            f.reserve((x % m1) as usize)?;
            for i in 0..x / m1 % m1 {
                f.ins(i as u32)?;
            }
            g.reserve((x / m1 / m1 % m1) as usize)?;
            for i in 0..x / m1 / m1 / m1 {
                g.ins(i as u32 + 100)?;
            }
            let top = f.cap.max(g.cap);
            for i in 0..12 {
                if i % 2 == 0 {
                    g.a.cl_from(&f.a);
                } else {
                    f.a.cl_from(&g.a);
                }
                if i % 5 == 4 {
                    f.a = g.a.cl();
                }
                ensure!(
                    f.a.cap() <= top && g.a.cap() <= top,
                    "after {} clones the capacities are {} and {}, at first they were at most {top}",
                    i + 1,
                    f.a.cap(),
                    g.a.cap()
                );
                // growth after cloning starts from there
                if g.a.len() < g.a.cap() && i % 3 == 2 {
                    let cap = g.a.cap();
                    g.a.ins(0, 7, None).ok_or("insertion refused")?;
                    same!(g.a.cap(), cap, "capacity() after insertion into spare capacity of a clone");
                }
            }
            Ok(true)
        },
    );
}

macro_rules! kinds {
    ($m:ident, $c:expr, $p:ident, $($x:expr),*) => {
        $m::<$p, A<$p>>($c, stringify!($p), $($x),*);
        $m::<$p, C<$p>>($c, stringify!($p), $($x),*);
        $m::<$p, N<$p>>($c, stringify!($p), $($x),*);
        $m::<$p, O<$p>>($c, stringify!($p), $($x),*);
        $m::<$p, S<$p>>($c, stringify!($p), $($x),*);
    };
}

fn main() {
    run(|c| match c.prop.as_str() {
        "A02" => {
            let d = c.q(6, 9);
            kinds!(gens, c, P88, c.q(250, 245), 2, deep());
            kinds!(gens, c, P88, 2, 2, deep());
            if c.thorough {
                kinds!(gens, c, P88, 250, 4, deep());
            }
            kinds!(gens, c, P8N, 0, 4, deep());
            kinds!(gens, c, PD8, 252, 4, dedup_to(d));
            kinds!(gens, c, PD, 2, 4, dedup_to(d));
            kinds!(gens, c, PN, 0, 4, dedup_to(d));
            kinds!(gens, c, P1616, 65533, 2, dedup_to(c.q(3, 4)));
        }
        "A03" => {
            let few = vec![0, 1, 3, 100, 127, 128, 129, 200, 254, 255];
            let all: Vec<usize> = (0..=255).collect();
            kinds!(index_range, c, P8D, all.clone());
            kinds!(index_range, c, P88, few.clone());
            kinds!(index_range, c, P8N, few.clone());
            if c.thorough {
                kinds!(index_range, c, P1616, vec![0, 40_000]);
            } else {
                index_range::<P1616, A<P1616>>(c, "P1616", vec![0]);
            }
            kinds!(constructing, c, P8D, (0..=258).chain([1000]).collect());
            kinds!(constructing, c, PD, (0..=c.q(80, 300)).chain([1000, 65_535, 65_536, 65_537]).collect());
            kinds!(constructing, c, P8N, vec![0, 1, 2, 127, 128, 129, 254, 255, 256, 257]);
            constructing_surject(c, c.q(20, 70));
            released(c);
            let m = c.q(7, 10);
            kinds!(reserving, c, P8D, m);
            kinds!(reserving, c, PD, m);
            kinds!(clone_growth, c, PD, c.q(5, 7));
            kinds!(clone_growth, c, P8N, c.q(5, 7));
        }
        _ => (),
    })
}
