//! Ownership of elements and use of memory. All explorations run with tracked elements under the checking
//! allocator; this adds every group of operations together and elements of other shapes.

use mc::*;
use mc::{w_arena as wa, w_chain as wc, w_ord as wo, w_surject as ws};
use triple_arena::utils::ChainNoGenArena;
use triple_arena::{Arena, ChainArena, OrdArena, SurjectArena};

type A<P> = wa::ArenaWorld<P>;
type C<P> = wc::ChainWorld<P, ChainArena<P, wc::T>>;
type N<P> = wc::ChainWorld<P, ChainNoGenArena<P, wc::T>>;
type O<P> = wo::OrdWorld<P>;
type S<P> = ws::SurjectWorld<P>;

/// Element types of different shape
trait Shape: Clone + 'static {
    const NAME: &'static str;
    fn make(id: u32) -> Self;
    fn is(&self, id: u32) -> bool;
}
macro_rules! shape {
    ($t:ty, $name:expr, $make:expr, $is:expr) => {
        impl Shape for $t {
            const NAME: &'static str = $name;
            fn make(id: u32) -> Self {
                let f: fn(u32) -> Self = $make;
                f(id)
            }
            fn is(&self, id: u32) -> bool {
                let f: fn(&Self, u32) -> bool = $is;
                f(self, id)
            }
        }
    };
}
#[derive(Clone)]
#[repr(align(64))]
struct Wide(u32);
#[derive(Clone)]
struct Big([u32; 100]);
#[derive(Clone)]
#[repr(packed)]
struct Odd(u8, u32, u16);
/// without a size, but counted
struct Nil(());
thread_local! {
    static NILS: std::cell::Cell<isize> = const { std::cell::Cell::new(0) };
}
impl Clone for Nil {
    fn clone(&self) -> Self {
        NILS.with(|n| n.set(n.get() + 1));
        Nil(())
    }
}
impl Drop for Nil {
    fn drop(&mut self) {
        NILS.with(|n| n.set(n.get() - 1));
    }
}
shape!((), "()", |_| (), |_, _| true);
shape!(u8, "u8", |i| i as u8, |s, i| *s == i as u8);
shape!([u8; 3], "[u8; 3]", |i| [i as u8, 7, 9], |s, i| *s == [i as u8, 7, 9]);
shape!(bool, "bool", |i| i % 2 == 1, |s, i| *s == (i % 2 == 1));
shape!(u128, "u128", |i| (i as u128) << 100, |s, i| *s == (i as u128) << 100);
shape!(Box<u32>, "Box<u32>", |i| Box::new(i), |s, i| **s == i);
shape!(Option<Box<u32>>, "Option<Box<u32>>", |i| (i % 2 == 0).then(|| Box::new(i)), |s, i| *s == (i % 2 == 0).then(|| Box::new(i)));
shape!(String, "String", |i| i.to_string(), |s, i| *s == i.to_string());
shape!(Vec<tv::Tv<5>>, "vector of tracked values", |i| (0..i % 3).map(|_| tv::Tv::new(i)).collect(), |s, i| s.len() as u32 == i % 3 && s.iter().all(|t| t.id() == i));
shape!(tv::Tv<5>, "tracked value of 17 bytes", |i| tv::Tv::new(i), |s, i| s.id() == i);
shape!(tv::Tv<52>, "tracked value of 64 bytes", |i| tv::Tv::new(i), |s, i| s.id() == i);
shape!(Wide, "value aligned to 64 bytes", Wide, |s, i| s.0 == i);
shape!(Big, "value of 400 bytes", |i| Big([i; 100]), |s, i| s.0 == [i; 100]);
shape!(Odd, "packed value of 7 bytes", |i| Odd(1, i, 2), |s, i| (s.0, { s.1 }, { s.2 }) == (1, i, 2));
shape!(Nil, "counted value without size", |_| Nil(()).counted(), |_, _| true);
impl Nil {
    fn counted(self) -> Self {
        NILS.with(|n| n.set(n.get() + 1));
        self
    }
}

const OPS: &[&str] = &[
    "insert",
    "remove first",
    "remove last",
    "replace",
    "swap",
    "invalidate",
    "clear",
    "clear_and_shrink",
    "compress_and_shrink",
    "reserve",
    "clone",
    "clone_from",
    "drain two",
    "remove_by",
];

/// What all kinds can do
trait Hold<E: Shape>: Clone {
    const NAME: &'static str;
    fn new() -> Self;
    fn put(&mut self, id: u32) -> PD;
    fn take(&mut self, p: PD) -> Option<E>;
    fn replace(&mut self, p: PD, e: E) -> Option<E>;
    fn swap(&mut self, p: PD, q: PD) -> bool;
    fn two(&mut self, p: PD, q: PD) -> Option<(*const E, *const E)>;
    fn invalidate(&mut self, p: PD) -> Option<PD>;
    fn clear(&mut self, shrink: bool);
    fn compress(&mut self) -> Vec<(PD, PD)>;
    fn reserve(&mut self, n: usize);
    fn drain_two(&mut self) -> bool;
    fn remove_by(&mut self, p: PD) -> bool;
    fn len(&self) -> usize;
    fn at(&self, p: PD) -> Option<&E>;
    fn all(&mut self) -> Vec<(PD, *const E)>;
    fn eat(self) -> Vec<E>;
}
macro_rules! hold {
    ($t:ty, $name:expr, put $put:expr, take $take:expr, replace $rep:expr, drain $drain:expr, remove_by $by:expr, at $at:expr, all $all:expr,
     swap $swap:ident, two $two:expr, compress $comp:expr, eat $eat:expr) => {
        impl<E: Shape> Hold<E> for $t {
            const NAME: &'static str = $name;
            fn new() -> Self {
                <$t>::new()
            }
            fn put(&mut self, id: u32) -> PD {
                let f: fn(&mut $t, u32) -> PD = $put;
                f(self, id)
            }
            fn take(&mut self, p: PD) -> Option<E> {
                let f: fn(&mut $t, PD) -> Option<E> = $take;
                f(self, p)
            }
            fn replace(&mut self, p: PD, e: E) -> Option<E> {
                let f: fn(&mut $t, PD, E) -> Option<E> = $rep;
                f(self, p, e)
            }
            fn swap(&mut self, p: PD, q: PD) -> bool {
                self.$swap(p, q).is_some()
            }
            fn two(&mut self, p: PD, q: PD) -> Option<(*const E, *const E)> {
                let f: fn(&mut $t, PD, PD) -> Option<(*const E, *const E)> = $two;
                f(self, p, q)
            }
            fn invalidate(&mut self, p: PD) -> Option<PD> {
                self.invalidate(p)
            }
            fn clear(&mut self, shrink: bool) {
                if shrink {
                    self.clear_and_shrink()
                } else {
                    self.clear()
                }
            }
            fn compress(&mut self) -> Vec<(PD, PD)> {
                let f: fn(&mut $t) -> Vec<(PD, PD)> = $comp;
                f(self)
            }
            fn reserve(&mut self, n: usize) {
                rsv(self, n)
            }
            fn drain_two(&mut self) -> bool {
                let f: fn(&mut $t) -> bool = $drain;
                f(self)
            }
            fn remove_by(&mut self, p: PD) -> bool {
                let f: fn(&mut $t, PD) -> bool = $by;
                f(self, p)
            }
            fn len(&self) -> usize {
                ln(self)
            }
            fn at(&self, p: PD) -> Option<&E> {
                let f: fn(&$t, PD) -> Option<&E> = $at;
                f(self, p)
            }
            fn all(&mut self) -> Vec<(PD, *const E)> {
                let f: fn(&mut $t) -> Vec<(PD, *const E)> = $all;
                f(self)
            }
            fn eat(self) -> Vec<E> {
                let f: fn($t) -> Vec<E> = $eat;
                f(self)
            }
        }
    };
}
trait Sized5 {
    fn rsv(&mut self, n: usize);
    fn ln(&self) -> usize;
}
fn rsv<X: Sized5>(x: &mut X, n: usize) {
    x.rsv(n)
}
fn ln<X: Sized5>(x: &X) -> usize {
    x.ln()
}
macro_rules! sized5 {
    ($t:ty, $r:ident, $l:ident) => {
        impl<E> Sized5 for $t {
            fn rsv(&mut self, n: usize) {
                self.$r(n)
            }
            fn ln(&self) -> usize {
                self.$l()
            }
        }
    };
}
sized5!(Arena<PD, E>, reserve, len);
sized5!(ChainArena<PD, E>, reserve, len);
sized5!(ChainNoGenArena<PD, E>, reserve, len);
sized5!(OrdArena<PD, u32, E>, reserve, len);
sized5!(SurjectArena<PD, E, E>, reserve_keys, len_keys);

hold!(Arena<PD, E>, "arena",
    put |a, id| a.insert(E::make(id)),
    take |a, p| a.remove(p),
    replace |a, p, e| a.replace_and_keep_gen(p, e).ok(),
    drain |a| { let mut d = a.drain(); let n = d.next().is_some() as u32 + d.next().is_some() as u32; drop(d); n <= 2 },
    remove_by |a, p| { a.remove_by(|q, _| q == p); true },
    at |a, p| a.get(p),
    all |a| a.iter_mut().map(|(p, e)| (p, e as *const E)).collect(),
    swap swap,
    two |a, p, q| { let (x, y) = a.get2_mut(p, q)?; Some((x as *const E, y as *const E)) },
    compress |a| { let mut v = vec![]; a.compress_and_shrink_with(|p, _, q| v.push((p, q))); v },
    eat |a| a.into_iter().map(|x| x.1).collect());
hold!(ChainArena<PD, E>, "chain",
    put |a, id| { let last = a.ptrs().last(); match last { Some(p) if a.get_link(p).unwrap().next().is_none() => a.insert((Some(p), None), E::make(id)).ok().unwrap(), _ => a.insert_new(E::make(id)) } },
    take |a, p| a.remove(p).map(|l| l.t),
    replace |a, p, e| a.replace_and_keep_gen(p, e).ok(),
    drain |a| { let mut d = a.drain(); let n = d.next().is_some() as u32 + d.next().is_some() as u32; drop(d); n <= 2 },
    remove_by |_, _| false,
    at |a, p| a.get(p),
    all |a| a.iter_mut().map(|(p, l)| (p, l.t as *const E)).collect(),
    swap swap,
    two |a, p, q| { let (x, y) = a.get2_mut(p, q)?; Some((x as *const E, y as *const E)) },
    compress |a| { let mut v = vec![]; a.compress_and_shrink_with(|p, _, q| v.push((p, q))); v },
    eat |a| a.into_iter().map(|x| x.1.t).collect());
hold!(ChainNoGenArena<PD, E>, "nogen-chain",
    put |a, id| { let last = a.ptrs().last(); match last { Some(p) if a.get_link(p).unwrap().next().is_none() => a.insert_end(p, E::make(id)).ok().unwrap(), _ => a.insert_new_cyclic(E::make(id)) } },
    take |a, p| a.remove(p).map(|l| l.t),
    replace |a, p, e| a.replace_and_keep_gen(p, e).ok(),
    drain |_| false,
    remove_by |_, _| false,
    at |a, p| a.get(p),
    all |a| a.iter_mut().map(|(p, l)| (p, l.t as *const E)).collect(),
    swap swap,
    two |a, p, q| { let (x, y) = a.get2_mut(p, q)?; Some((x as *const E, y as *const E)) },
    compress |a| { let mut v = vec![]; a.compress_and_shrink_with(|p, _, q| v.push((p, q))); v },
    eat |a| a.into_iter().map(|x| x.1.t).collect());
hold!(OrdArena<PD, u32, E>, "ord",
    // neither sorted nor reverse
    put |a, id| a.insert(id.wrapping_mul(0x9e3779b1), E::make(id)).0,
    take |a, p| a.remove(p).map(|x| x.1),
    replace |a, p, e| a.replace_val_and_keep_gen(p, e).ok(),
    drain |a| { let mut d = a.drain(); let n = d.next().is_some() as u32 + d.next().is_some() as u32; drop(d); n <= 2 },
    remove_by |_, _| false,
    at |a, p| a.get_val(p),
    all |a| { let ps: Vec<PD> = a.ptrs().collect(); let vs: Vec<*const E> = a.vals_mut().map(|v| v as *const E).collect(); ps.into_iter().zip(vs).collect() },
    swap swap_vals,
    two |a, p, q| { let (x, y) = a.get2_val_mut(p, q)?; Some((x as *const E, y as *const E)) },
    compress |a| { let mut v = vec![]; a.compress_and_shrink_with(|p, _, _, q| v.push((p, q))); v },
    eat |a| a.into_iter().map(|x| x.2).collect());
hold!(SurjectArena<PD, E, E>, "surject",
    put |a, id| { let last = a.ptrs().last(); match last { Some(p) if id % 2 == 1 => a.insert_key(p, E::make(id)).ok().unwrap(), _ => a.insert(E::make(id), E::make(id)) } },
    take |a, p| a.remove_key(p).map(|x| x.0),
    replace |a, p, mut e| { std::mem::swap(a.get_key_mut(p)?, &mut e); Some(e) },
    drain |_| false,
    remove_by |_, _| false,
    at |a, p| a.get_key(p),
    all |a| { let ps: Vec<PD> = a.ptrs().collect(); let ks: Vec<*const E> = a.keys_mut().map(|k| k as *const E).collect(); ps.into_iter().zip(ks).collect() },
    swap swap_keys,
    two |a, p, q| { let (x, y) = a.get2_key_mut(p, q)?; Some((x as *const E, y as *const E)) },
    compress |a| { let mut v = vec![]; a.compress_and_shrink_with(|p, _, _, q| v.push((p, q))); v },
    eat |a| a.iter().map(|x| x.1.clone()).collect());

fn shapes<E: Shape, H: Hold<E>>(c: &mut Ctx, depth: u32) {
    let n = OPS.len() as u64;
    let seq = move |mut x: u64| {
        (0..depth).map(move |_| {
            let o = x % n;
            x /= n;
            o as usize
        })
    };
    c.enumerate(
        &format!("{} of {}", H::NAME, E::NAME),
        n.pow(depth),
        move |x| {
            let mut v = vec!["insert", "insert"];
            v.extend(seq(x).map(|o| OPS[o]));
            v.join(", ")
        },
        move |x| {
            NILS.with(|n| n.set(0));
            let mut a = H::new();
            let mut m: Vec<(PD, u32)> = vec![];
            let mut ids = 0;
            for o in [0, 0].into_iter().chain(seq(x)) {
                let first = m.first().copied();
                let last = m.last().copied();
                match o {
                    0 => {
                        let p = a.put(ids);
                        m.push((p, ids));
                        ids += 1;
                    }
                    1 | 2 => {
                        let x = if o == 1 { first } else { last };
                        if let Some((p, id)) = x {
                            let e = a.take(p).ok_or("remove refused")?;
                            ensure!(e.is(id), "another element was removed");
                            m.retain(|x| x.0 != p);
                            ensure!(a.take(p).is_none(), "removed twice");
                        }
                    }
                    3 => {
                        if let Some((p, id)) = first {
                            let e = a.replace(p, E::make(ids)).ok_or("replace refused")?;
                            ensure!(e.is(id), "another element was replaced");
                            m[0].1 = ids;
                            ids += 1;
                        }
                    }
                    4 => {
                        if let (Some(x), Some(y)) = (first, last) {
                            ensure!(a.swap(x.0, y.0), "swap refused");
                            let e = m.len() - 1;
                            let t = m[0].1;
                            m[0].1 = m[e].1;
                            m[e].1 = t;
                        }
                    }
                    5 => {
                        if let Some((p, _)) = last {
                            m.last_mut().unwrap().0 = a.invalidate(p).ok_or("invalidate refused")?;
                        }
                    }
                    6 | 7 => {
                        a.clear(o == 7);
                        m.clear();
                    }
                    8 => {
                        let map = a.compress();
                        same!(map.len(), m.len(), "elements mapped in compression");
                        for x in m.iter_mut() {
                            x.0 = map.iter().find(|y| y.0 == x.0).ok_or("an element was not mapped")?.1;
                        }
                    }
                    9 => a.reserve(3),
                    10 => a = a.clone(),
                    11 => {
                        let mut b = H::new();
                        b.put(77);
                        b.clone_from(&a);
                        a.clone_from(&b);
                    }
                    12 => {
                        if a.drain_two() {
                            m.clear();
                        }
                    }
                    _ => {
                        if let Some((p, _)) = last {
                            if a.remove_by(p) {
                                m.pop();
                            }
                        }
                    }
                }
                same!(a.len(), m.len(), "number of elements after {}", OPS[o]);
                for (p, id) in &m {
                    let e = a.at(*p).ok_or_else(|| format!("{p:?} is not valid after {}", OPS[o]))?;
                    ensure!(e.is(*id), "another element at {p:?} after {}", OPS[o]);
                }
                // mutable references at the same time
                let mut all = a.all();
                same!(all.len(), m.len(), "elements in mutable iteration");
                for (p, at) in &all {
                    ensure!(*at as usize % std::mem::align_of::<E>() == 0, "element at {p:?} is not aligned");
                }
                all.sort_by_key(|x| x.1 as usize);
                for w in all.windows(2) {
                    ensure!(w[0].1 as usize + std::mem::size_of::<E>() <= w[1].1 as usize, "elements at {:?} and {:?} overlap", w[0].0, w[1].0);
                }
                if let (Some(x), Some(y)) = (m.first(), m.last()) {
                    let r = a.two(x.0, y.0);
                    // two references to an element are never handed out
                    same!(r.is_some(), x.0 != y.0, "get2_mut");
                    ensure!(a.two(x.0, x.0).is_none(), "two references to an element were handed out");
                }
            }
            let es = a.eat();
            same!(es.len(), m.len(), "elements given by value");
            for (_, id) in &m {
                ensure!(es.iter().any(|e| e.is(*id)), "element {id} was not given by value");
            }
            drop(es);
            same!(NILS.with(|n| n.get()), 0, "values without size that exist at the end");
            Ok(!m.is_empty())
        },
    );
}

fn kinds<E: Shape>(c: &mut Ctx, depth: u32) {
    shapes::<E, Arena<PD, E>>(c, depth);
    shapes::<E, ChainArena<PD, E>>(c, depth);
    shapes::<E, ChainNoGenArena<PD, E>>(c, depth);
    shapes::<E, OrdArena<PD, u32, E>>(c, depth);
    shapes::<E, SurjectArena<PD, E, E>>(c, depth);
}

// ---- threads ----

struct Probe<X>(std::marker::PhantomData<X>);
trait Otherwise {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<X> Otherwise for Probe<X> {}
#[allow(dead_code)]
impl<X: Send> Probe<X> {
    fn send(&self) -> bool {
        true
    }
}
#[allow(dead_code)]
impl<X: Sync> Probe<X> {
    fn sync(&self) -> bool {
        true
    }
}
/// whether the type can be sent to another thread, shared with it; only for types that are written out
macro_rules! threads {
    ($t:ty) => {{
        let p = Probe::<$t>(std::marker::PhantomData);
        (p.send(), p.sync())
    }};
}
fn markers(c: &mut Ctx) {
    type Sh = std::cell::Cell<u8>;
    type Loc = std::rc::Rc<u8>;
    type Gd = std::sync::MutexGuard<'static, u8>;
    macro_rules! all {
        ($($e:ty),*) => {
            vec![$((stringify!($e), threads!($e), [
                ("Arena", threads!(Arena<PD, $e>)),
                ("ChainArena", threads!(ChainArena<PD, $e>)),
                ("ChainNoGenArena", threads!(ChainNoGenArena<PD, $e>)),
                ("OrdArena, keys", threads!(OrdArena<PD, $e, u8>)),
                ("OrdArena, values", threads!(OrdArena<PD, u8, $e>)),
                ("SurjectArena, keys", threads!(SurjectArena<PD, $e, u8>)),
                ("SurjectArena, values", threads!(SurjectArena<PD, u8, $e>)),
                ("owning iterator", threads!(triple_arena::arena_iterators::CapacityDrain<PD, $e>)),
            ])),*]
        };
    }
    // of every combination
    let v = all!(u8, Sh, Loc, Gd);
    let w = &v;
    c.enumerate(
        "use by several threads",
        v.len() as u64 * 8,
        |x| format!("{} with {}", w[x as usize / 8].2[x as usize % 8].0, w[x as usize / 8].0),
        |x| {
            let (_, e, a) = &w[x as usize / 8];
            let (_, got) = a[x as usize % 8];
            ensure!(!got.0 || e.0, "can be sent to another thread although its elements cannot");
            ensure!(!got.1 || e.1, "can be shared with another thread although its elements cannot");
            same!(got, *e, "(can be sent, can be shared), compared with an element");
            Ok(true)
        },
    );
}

fn main() {
    run(|c| {
        if c.prop != "X08" {
            return;
        }
        markers(c);
        // all operations together
        let g = wa::G_BASE | wa::G_TRY | wa::G_REPL | wa::G_SWAP | wa::G_BULK | wa::G_SHRINK | wa::G_RESERVE | wa::G_DRAIN | wa::G_CLONE | wa::G_SHADOW | wa::G_ADV;
        let ac = |g, m| wa::Cfg { groups: g, max_cap: m, ages: false, full: true };
        c.explore::<A<PD>>("arena", ac(g & !wa::G_SHADOW, c.q(5, 6)), deep());
        c.explore::<A<PN>>("arena without generations", ac(g & !wa::G_ADV, c.q(4, 5)), deep());
        c.explore::<A<PD>>("arena, every sequence", ac(g, 4), all_to(c.q(4, 5)));
        let g = wc::G_INV | wc::G_REPL | wc::G_SWAP | wc::G_CHAIN | wc::G_LINKS | wc::G_BULK | wc::G_SHRINK | wc::G_RESERVE | wc::G_DRAIN | wc::G_CLONE | wc::G_WITH;
        let cc = |g, m| wc::Cfg { groups: g, max_cap: m, ages: false, full: true };
        c.explore::<C<PD>>("chain", cc(g, c.q(5, 6)), deep());
        c.explore::<N<PD>>("nogen-chain", cc(g, c.q(5, 6)), deep());
        c.explore::<C<PD>>("chain, two arenas", cc(g | wc::G_SHADOW, c.q(3, 4)), deep());
        let g = wo::G_INV | wo::G_REMOVE | wo::G_REPL | wo::G_SWAP | wo::G_EQ | wo::G_NON | wo::G_LIN | wo::G_MANUAL | wo::G_BULK | wo::G_SHRINK | wo::G_DRAIN | wo::G_CLONE;
        let oc = |g, m| wo::Cfg { groups: g, max_cap: m, max_len: m, slots: true, ages: false, inert: true, lin: false, full: true };
        c.explore::<O<PD>>("ord", oc(g, 4), deep());
        c.explore::<O<PN>>("ord without generations", oc(g, 4), deep());
        let g = ws::G_INV | ws::G_SWAP | ws::G_REMOVE | ws::G_REMOVE_SET | ws::G_MUT | ws::G_BULK | ws::G_SHRINK | ws::G_RESERVE | ws::G_CLONE | ws::G_WITH;
        let sc = |g, m| ws::Cfg { groups: g, max_cap: m, ages: false, inert: true, full: true };
        c.explore::<S<PD>>("surject", sc(g, c.q(4, 5)), deep());
        c.explore::<S<PN>>("surject without generations", sc(g, 4), deep());
        let d = c.q(5, 6);
        kinds::<()>(c, d);
        kinds::<u8>(c, d);
        kinds::<[u8; 3]>(c, d);
        kinds::<bool>(c, d);
        kinds::<u128>(c, d);
        kinds::<Box<u32>>(c, d);
        kinds::<Option<Box<u32>>>(c, d);
        kinds::<String>(c, d);
        kinds::<Vec<tv::Tv<5>>>(c, d);
        kinds::<tv::Tv<5>>(c, d);
        kinds::<tv::Tv<52>>(c, d);
        kinds::<Wide>(c, d);
        kinds::<Big>(c, d);
        kinds::<Odd>(c, d);
        kinds::<Nil>(c, d);
    })
}
