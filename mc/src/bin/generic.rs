//! The generic trait next to the concrete methods: two arenas of the same kind go through the same steps,
//! one by the trait and the other by its own methods.

use mc::*;
use std::collections::BTreeMap;
use triple_arena::utils::{ChainNoGenArena, LinkNoGen, PtrInx};
use triple_arena::{Advancer, Arena, ArenaTrait, ChainArena, Link, OrdArena, SurjectArena};

type T = tv::Tv<0>;

/// only the trait is visible in here
mod by_trait {
    use super::*;
    pub fn new<A: ArenaTrait>() -> A {
        A::new()
    }
    pub fn sizes<A: ArenaTrait<P = P>, P: Px>(a: &A) -> (usize, usize, bool, u64) {
        (a.capacity(), a.len(), a.is_empty(), P::rawgen(a.generation()))
    }
    pub fn insert<A: ArenaTrait>(a: &mut A, e: A::E) -> A::P {
        a.insert(e)
    }
    pub fn remove<A: ArenaTrait>(a: &mut A, p: A::P) -> Option<A::E> {
        a.remove(p)
    }
    pub fn get<A: ArenaTrait>(a: &A, p: A::P) -> Option<A::GetRes<'_>> {
        a.get(p)
    }
    pub fn get_mut<A: ArenaTrait>(a: &mut A, p: A::P) -> Option<A::GetMutRes<'_>> {
        a.get_mut(p)
    }
    pub fn advancer<A: ArenaTrait>(a: &A) -> A::Adv {
        a.advancer()
    }
    pub fn contains<A: ArenaTrait>(a: &A, p: A::P) -> bool {
        a.contains(p)
    }
    pub fn clear<A: ArenaTrait>(a: &mut A) {
        a.clear()
    }
    pub fn clear_and_shrink<A: ArenaTrait>(a: &mut A) {
        a.clear_and_shrink()
    }
}

/// element identities, with neighbors by number
type Seen = (u32, Option<String>, Option<String>);

/// numbers given to pointers in the order they were issued
type Names = BTreeMap<Raw, usize>;
type Slots = BTreeMap<usize, usize>;

fn name<P: Px>(n: &Names, p: P) -> String {
    n.get(&p.raw()).map_or(format!("unknown {p:?}"), |x| x.to_string())
}

/// What differs between the kinds. `l` is a concrete arena.
trait Twin<P: Px>: ArenaTrait<P = P> + Sized {
    const NAME: &'static str;
    fn c_new() -> Self;
    fn c_sizes(&self) -> (usize, usize, bool, u64);
    /// the element for a way of insertion
    fn element(&self, way: usize, id: u32, ps: &[P]) -> Self::E;
    fn c_insert(&mut self, e: Self::E) -> P;
    fn c_remove(&mut self, p: P) -> Option<Self::E>;
    fn c_contains(&self, p: P) -> bool;
    fn c_clear(&mut self);
    fn c_clear_and_shrink(&mut self);
    fn see(r: Self::GetRes<'_>, n: &Names, s: &Slots) -> Seen;
    fn c_see(&self, p: P, n: &Names, s: &Slots) -> Option<Seen>;
    fn see_element(e: Self::E, n: &Names, s: &Slots) -> Seen;
    /// changes the element through the mutable access given, if it is there
    fn touch(r: Self::GetMutRes<'_>, id: u32, n: &Names, s: &Slots) -> Seen;
    fn c_touch(&mut self, p: P, id: u32, n: &Names, s: &Slots) -> Option<Seen>;
    fn step(&self, a: &mut Self::Adv) -> Option<P>;
    fn c_ptrs(&self) -> Vec<P>;
    fn extra(&mut self, x: usize, ps: &[P]) -> Option<P>;
    fn sane(&self) -> Result<(), &'static str>;
}
fn slot(s: &Slots, i: Option<usize>) -> Option<String> {
    i.map(|i| s.get(&i).map_or(format!("unknown index {i}"), |x| x.to_string()))
}
macro_rules! common {
    ($name:expr, $cap:ident, $len:ident) => {
        const NAME: &'static str = $name;
        fn c_new() -> Self {
            Self::new()
        }
        fn c_sizes(&self) -> (usize, usize, bool, u64) {
            (self.$cap(), self.$len(), self.is_empty(), P::rawgen(self.generation()))
        }
        fn c_contains(&self, p: P) -> bool {
            self.contains(p)
        }
        fn c_clear(&mut self) {
            self.clear()
        }
        fn c_clear_and_shrink(&mut self) {
            self.clear_and_shrink()
        }
        fn step(&self, a: &mut Self::Adv) -> Option<P> {
            a.advance(self)
        }
        fn c_ptrs(&self) -> Vec<P> {
            let mut a = self.advancer();
            let mut v = vec![];
            while let Some(p) = a.advance(self) {
                v.push(p);
            }
            v
        }
        fn sane(&self) -> Result<(), &'static str> {
            Self::_check_invariants(self)
        }
    };
}
impl<P: Px> Twin<P> for Arena<P, T> {
    common!("arena", capacity, len);
    fn element(&self, _: usize, id: u32, _: &[P]) -> T {
        T::new(id)
    }
    fn c_insert(&mut self, e: T) -> P {
        self.insert(e)
    }
    fn c_remove(&mut self, p: P) -> Option<T> {
        self.remove(p)
    }
    fn see(r: &T, _: &Names, _: &Slots) -> Seen {
        (r.id(), None, None)
    }
    fn c_see(&self, p: P, _: &Names, _: &Slots) -> Option<Seen> {
        Some((self.get(p)?.id(), None, None))
    }
    fn see_element(e: T, _: &Names, _: &Slots) -> Seen {
        (e.id(), None, None)
    }
    fn touch(r: &mut T, id: u32, _: &Names, _: &Slots) -> Seen {
        let old = r.id();
        *r = T::new(id);
        (old, None, None)
    }
    fn c_touch(&mut self, p: P, id: u32, n: &Names, s: &Slots) -> Option<Seen> {
        Some(Self::touch(self.get_mut(p)?, id, n, s))
    }
    fn extra(&mut self, x: usize, ps: &[P]) -> Option<P> {
        match x {
            0 => {
                self.reserve(2);
                None
            }
            _ => self.invalidate(*ps.first()?),
        }
    }
}
impl<P: Px> Twin<P> for ChainArena<P, T> {
    common!("chain", capacity, len);
    fn element(&self, way: usize, id: u32, ps: &[P]) -> Link<P, T> {
        let at = ps.iter().copied().find(|p| self.contains(*p));
        let link = match (way, at) {
            (1, Some(p)) => (Some(p), self.get_link(p).unwrap().next()),
            (2, Some(p)) => (self.get_link(p).unwrap().prev(), Some(p)),
            _ => (None, None),
        };
        Link::new(link, T::new(id))
    }
    fn c_insert(&mut self, e: Link<P, T>) -> P {
        let pn = e.prev_next();
        self.insert(pn, e.t).ok().unwrap()
    }
    fn c_remove(&mut self, p: P) -> Option<Link<P, T>> {
        self.remove(p)
    }
    fn see(r: &Link<P, T>, n: &Names, _: &Slots) -> Seen {
        (r.t.id(), r.prev().map(|p| name(n, p)), r.next().map(|p| name(n, p)))
    }
    fn c_see(&self, p: P, n: &Names, s: &Slots) -> Option<Seen> {
        Some(Self::see(self.get_link(p)?, n, s))
    }
    fn see_element(e: Link<P, T>, n: &Names, s: &Slots) -> Seen {
        Self::see(&e, n, s)
    }
    fn touch(r: Link<P, &mut T>, id: u32, n: &Names, _: &Slots) -> Seen {
        let old = (r.t.id(), r.prev().map(|p| name(n, p)), r.next().map(|p| name(n, p)));
        *r.t = T::new(id);
        old
    }
    fn c_touch(&mut self, p: P, id: u32, n: &Names, s: &Slots) -> Option<Seen> {
        Some(Self::touch(self.get_link_mut(p)?, id, n, s))
    }
    fn extra(&mut self, x: usize, ps: &[P]) -> Option<P> {
        match x {
            0 => {
                self.reserve(2);
                None
            }
            _ => {
                let (a, b) = (*ps.first()?, *ps.last()?);
                self.connect(b, a)?;
                None
            }
        }
    }
}
impl<P: Px> Twin<P> for ChainNoGenArena<P, T> {
    common!("nogen-chain", capacity, len);
    fn element(&self, way: usize, id: u32, ps: &[P]) -> LinkNoGen<P, T> {
        let at = ps.iter().copied().find(|p| self.contains(*p));
        let link = match (way, at) {
            (1, Some(p)) => (Some(p.inx()), self.get_link(p).unwrap().next()),
            (2, Some(p)) => (self.get_link(p).unwrap().prev(), Some(p.inx())),
            _ => (None, None),
        };
        LinkNoGen::new(link, T::new(id))
    }
    fn c_insert(&mut self, e: LinkNoGen<P, T>) -> P {
        let pn = e.prev_next();
        self.insert(pn, e.t).ok().unwrap()
    }
    fn c_remove(&mut self, p: P) -> Option<LinkNoGen<P, T>> {
        self.remove(p)
    }
    fn see(r: &LinkNoGen<P, T>, _: &Names, s: &Slots) -> Seen {
        let g = |x: Option<P::Inx>| slot(s, x.map(|x| PtrInx::get(x).get()));
        (r.t.id(), g(r.prev()), g(r.next()))
    }
    fn c_see(&self, p: P, n: &Names, s: &Slots) -> Option<Seen> {
        Some(Self::see(self.get_link(p)?, n, s))
    }
    fn see_element(e: LinkNoGen<P, T>, n: &Names, s: &Slots) -> Seen {
        Self::see(&e, n, s)
    }
    fn touch(r: LinkNoGen<P, &mut T>, id: u32, _: &Names, s: &Slots) -> Seen {
        let g = |x: Option<P::Inx>| slot(s, x.map(|x| PtrInx::get(x).get()));
        let old = (r.t.id(), g(r.prev()), g(r.next()));
        *r.t = T::new(id);
        old
    }
    fn c_touch(&mut self, p: P, id: u32, n: &Names, s: &Slots) -> Option<Seen> {
        Some(Self::touch(self.get_link_mut(p)?, id, n, s))
    }
    fn extra(&mut self, x: usize, ps: &[P]) -> Option<P> {
        match x {
            0 => {
                self.reserve(2);
                None
            }
            _ => {
                let (a, b) = (*ps.first()?, *ps.last()?);
                self.connect(b, a)?;
                None
            }
        }
    }
}
impl<P: Px> Twin<P> for OrdArena<P, u32, T> {
    common!("ord", capacity, len);
    fn element(&self, way: usize, id: u32, _: &[P]) -> (u32, T) {
        // an equal key replaces
        ([50 + id, 50, 50 - id][way], T::new(id))
    }
    fn c_insert(&mut self, e: (u32, T)) -> P {
        self.insert(e.0, e.1).0
    }
    fn c_remove(&mut self, p: P) -> Option<(u32, T)> {
        self.remove(p)
    }
    fn see(r: (&u32, &T), _: &Names, _: &Slots) -> Seen {
        (r.1.id(), Some(r.0.to_string()), None)
    }
    fn c_see(&self, p: P, n: &Names, s: &Slots) -> Option<Seen> {
        Some(Self::see(self.get(p)?, n, s))
    }
    fn see_element(e: (u32, T), n: &Names, s: &Slots) -> Seen {
        Self::see((&e.0, &e.1), n, s)
    }
    fn touch(r: (&u32, &mut T), id: u32, _: &Names, _: &Slots) -> Seen {
        let old = (r.1.id(), Some(r.0.to_string()), None);
        *r.1 = T::new(id);
        old
    }
    fn c_touch(&mut self, p: P, id: u32, n: &Names, s: &Slots) -> Option<Seen> {
        Some(Self::touch(self.get_mut(p)?, id, n, s))
    }
    fn extra(&mut self, x: usize, ps: &[P]) -> Option<P> {
        match x {
            0 => {
                self.reserve(2);
                None
            }
            _ => self.invalidate(*ps.first()?),
        }
    }
}
impl<P: Px> Twin<P> for SurjectArena<P, T, ()> {
    common!("surject", capacity_keys, len_keys);
    fn element(&self, _: usize, id: u32, _: &[P]) -> T {
        T::new(id)
    }
    fn c_insert(&mut self, e: T) -> P {
        self.insert(e, ())
    }
    fn c_remove(&mut self, p: P) -> Option<T> {
        self.remove_key(p).map(|x| x.0)
    }
    fn see(r: &T, _: &Names, _: &Slots) -> Seen {
        (r.id(), None, None)
    }
    fn c_see(&self, p: P, _: &Names, _: &Slots) -> Option<Seen> {
        Some((self.get_key(p)?.id(), None, None))
    }
    fn see_element(e: T, _: &Names, _: &Slots) -> Seen {
        (e.id(), None, None)
    }
    fn touch(r: &mut T, id: u32, _: &Names, _: &Slots) -> Seen {
        let old = r.id();
        *r = T::new(id);
        (old, None, None)
    }
    fn c_touch(&mut self, p: P, id: u32, n: &Names, s: &Slots) -> Option<Seen> {
        Some(Self::touch(self.get_key_mut(p)?, id, n, s))
    }
    fn extra(&mut self, x: usize, ps: &[P]) -> Option<P> {
        match x {
            0 => {
                self.reserve_keys(2);
                None
            }
            _ => {
                let (a, b) = (*ps.first()?, *ps.last()?);
                let _ = self.union(a, b);
                None
            }
        }
    }
}

const OPS: &[&str] = &[
    "insert",
    "insert, second way",
    "insert, third way",
    "remove 0",
    "remove 1",
    "remove 2",
    "remove 3",
    "get_mut 0",
    "get_mut 2",
    "clear",
    "clear_and_shrink",
    "reserve (both by the concrete method)",
    "kind specific (both by the concrete method)",
    "advancer()",
    "advance",
];

struct Half<A: ArenaTrait> {
    a: A,
    ps: Vec<A::P>,
    names: Names,
    slots: Slots,
    adv: Option<A::Adv>,
}
impl<A: ArenaTrait> Half<A>
where
    A::P: Px,
{
    fn issue(&mut self, p: A::P) {
        let n = self.ps.len();
        self.names.insert(p.raw(), n);
        self.slots.insert(p.raw().0, n);
        self.ps.push(p);
    }
}

fn go<P: Px, A: Twin<P>>(c: &mut Ctx, label: &str, depth: u32) {
    let n = OPS.len() as u64;
    // some insertions to begin with
    let seq = move |mut x: u64| {
        let first = x % 4;
        x /= 4;
        (0..first).map(|_| 0).chain((0..depth).map(move |_| {
            let o = x % n;
            x /= n;
            o as usize
        }))
    };
    c.enumerate(
        &format!("{} {label}", A::NAME),
        n.pow(depth) * 4,
        move |x| seq(x).map(|o| OPS[o]).collect::<Vec<_>>().join(", "),
        move |x| {
            let half = |a: A| Half { a, ps: vec![], names: Names::new(), slots: Slots::new(), adv: None };
            let mut t: Half<A> = half(by_trait::new());
            let mut u: Half<A> = half(A::c_new());
            let mut id = 0;
            let mut moved = false;
            for o in seq(x) {
                let what = OPS[o];
                match o {
                    0..=2 => {
                        id += 1;
                        let e = t.a.element(o, id, &t.ps);
                        let p = by_trait::insert(&mut t.a, e);
                        t.issue(p);
                        let e = u.a.element(o, id, &u.ps);
                        let q = u.a.c_insert(e);
                        u.issue(q);
                        moved = true;
                    }
                    3..=6 => {
                        let i = o - 3;
                        if i < t.ps.len() {
                            let x = by_trait::remove(&mut t.a, t.ps[i]).map(|e| A::see_element(e, &t.names, &t.slots));
                            let y = u.a.c_remove(u.ps[i]).map(|e| A::see_element(e, &u.names, &u.slots));
                            same!(x, y, "{what}");
                        }
                    }
                    7 | 8 => {
                        let i = [0, 2][o - 7];
                        id += 1;
                        if i < t.ps.len() {
                            let x = by_trait::get_mut(&mut t.a, t.ps[i]).map(|e| A::touch(e, id, &t.names, &t.slots));
                            let y = u.a.c_touch(u.ps[i], id, &u.names, &u.slots);
                            same!(x, y, "{what}");
                        }
                    }
                    9 => {
                        by_trait::clear(&mut t.a);
                        u.a.c_clear();
                    }
                    10 => {
                        by_trait::clear_and_shrink(&mut t.a);
                        u.a.c_clear_and_shrink();
                    }
                    11 | 12 => {
                        let x = t.a.extra(o - 11, &t.ps);
                        let y = u.a.extra(o - 11, &u.ps);
                        if let (Some(x), Some(y)) = (x, y) {
                            t.issue(x);
                            u.issue(y);
                        }
                    }
                    13 => {
                        t.adv = Some(by_trait::advancer(&t.a));
                        u.adv = Some(by_trait::advancer(&u.a));
                    }
                    _ => {
                        if let (Some(x), Some(y)) = (&mut t.adv, &mut u.adv) {
                            let p = t.a.step(x);
                            let q = u.a.step(y);
                            same!(p.map(|p| name(&t.names, p)), q.map(|p| name(&u.names, p)), "advanced to");
                        }
                    }
                }
                same!(by_trait::sizes(&t.a), u.a.c_sizes(), "capacity, len, is_empty, generation after {what}");
                same!(by_trait::sizes(&t.a), t.a.c_sizes(), "capacity, len, is_empty, generation of the same arena after {what}");
                for i in 0..t.ps.len() {
                    let (p, q) = (t.ps[i], u.ps[i]);
                    let x = by_trait::get(&t.a, p).map(|e| A::see(e, &t.names, &t.slots));
                    same!(x, u.a.c_see(q, &u.names, &u.slots), "get of pointer {i} after {what}");
                    same!(x, t.a.c_see(p, &t.names, &t.slots), "get of pointer {i} in the same arena after {what}");
                    same!(by_trait::contains(&t.a, p), u.a.c_contains(q), "contains of pointer {i} after {what}");
                    same!(by_trait::contains(&t.a, p), x.is_some(), "contains and get of pointer {i} after {what}");
                }
                for p in [P::invalid()] {
                    ensure!(!by_trait::contains(&t.a, p) && by_trait::get(&t.a, p).is_none(), "the invalid pointer is there");
                    ensure!(by_trait::get_mut(&mut t.a, p).is_none() && by_trait::remove(&mut t.a, p).is_none(), "the invalid pointer is there");
                }
                let mut a = by_trait::advancer(&t.a);
                let mut v = vec![];
                while let Some(p) = t.a.step(&mut a) {
                    v.push(p);
                    ensure!(v.len() <= t.ps.len(), "the advancer does not end");
                }
                let names: Vec<String> = v.iter().map(|p| name(&t.names, *p)).collect();
                let c: Vec<String> = t.a.c_ptrs().into_iter().map(|p| name(&t.names, p)).collect();
                same!(names, c, "pointers advanced over after {what}");
                same!(names.len(), t.a.c_sizes().1, "number of pointers advanced over after {what}");
                t.a.sane()?;
            }
            Ok(moved)
        },
    );
}

fn main() {
    run(|c| {
        if c.prop != "X10" {
            return;
        }
        fn all<P: Px>(c: &mut Ctx, label: &str, d: u32) {
            go::<P, Arena<P, T>>(c, label, d);
            go::<P, ChainArena<P, T>>(c, label, d);
            go::<P, ChainNoGenArena<P, T>>(c, label, d);
            go::<P, OrdArena<P, u32, T>>(c, label, d);
            go::<P, SurjectArena<P, T, ()>>(c, label, d);
        }
        all::<PD>(c, "with generations", c.q(5, 6));
        all::<PN>(c, "without generations", c.q(4, 5));
        all::<P88>(c, "8 bit", c.q(4, 5));
    })
}
