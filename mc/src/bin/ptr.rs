//! Pointer types.

use mc::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Display;
use std::hash::{Hash, Hasher};
use std::num::{NonZeroU128, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU8, NonZeroUsize};
use triple_arena::utils::{ChainNoGenArena, PtrGen, PtrInx, PtrNoGen};
use triple_arena::{ptr_struct, Arena, ChainArena, OrdArena, Ptr, Recast, Recaster, SurjectArena};

/// Access to the numbers that does not go through the code under test
trait Num: Copy {
    const MAX: u128;
    fn of(x: u128) -> Self;
    fn num(self) -> u128;
}
macro_rules! num {($($nz:ident $t:ident),*) => {$(
    impl Num for $nz {
        const MAX: u128 = $t::MAX as u128;
        fn of(x: u128) -> Self { $nz::new(x as $t).unwrap() }
        fn num(self) -> u128 { self.get() as u128 }
    }
)*}}
num!(NonZeroUsize usize, NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128);
impl Num for () {
    const MAX: u128 = 0;
    fn of(_: u128) {}
    fn num(self) -> u128 {
        0
    }
}

const U: u128 = usize::MAX as u128;

/// Values of a number of `max`: all up to a limit, and those around powers of two and the maximum
fn values(max: u128, all: u128) -> Vec<u128> {
    if max == 0 {
        return vec![0];
    }
    let mut s: BTreeSet<u128> = (1..=all.min(max)).collect();
    for b in 0..128 {
        for d in -2i128..=2 {
            let x = (1u128 << b).wrapping_add(d as u128);
            if x >= 1 && x <= max {
                s.insert(x);
            }
        }
    }
    for d in 0..3 {
        s.insert(max - d);
    }
    s.into_iter().collect()
}

fn few(max: u128) -> Vec<u128> {
    if max == 0 {
        return vec![0];
    }
    let mut v = vec![1, 2, 3, 15, 16, 17, 127, 128, 254, 255, 256, 65535, 65536, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, U - 1, U, U + 1, 1 << 127, max - 1, max];
    v.retain(|x| *x <= max);
    v.sort();
    v.dedup();
    v
}

fn hash<H: Hash>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

fn mk<P: Ptr>(x: (u128, u128)) -> P
where
    P::Inx: Num,
    P::Gen: Num,
{
    P::_from_raw(P::Inx::of(x.0), P::Gen::of(x.1))
}
fn pair<P: Ptr>(p: P) -> (u128, u128)
where
    P::Inx: Num,
    P::Gen: Num,
{
    (p.inx().num(), p.generation().num())
}

struct Map<P>(BTreeMap<P, P>);
impl<P: Ptr> Recaster for Map<P> {
    type Item = P;
    fn recast_item(&self, item: &mut P) -> Result<(), P> {
        match self.0.get(item) {
            Some(x) => {
                *item = *x;
                Ok(())
            }
            None => Err(*item),
        }
    }
}

fn one<P: Ptr + Default + Display>(c: &mut Ctx, name: &'static str, inx: &'static str)
where
    P::Inx: Num,
    P::Gen: Num,
{
    let has_gen = <P::Gen as Num>::MAX != 0;
    let inxs = values(<P::Inx as Num>::MAX, 300);
    let gens = values(<P::Gen as Num>::MAX, 300);

    // conversions of indexes
    let iv = values(U, 70_000);
    let iv2 = iv.clone();
    c.enumerate(
        &format!("{name}{inx}: index conversions"),
        iv.len() as u64,
        move |x| format!("{}", iv2[x as usize]),
        move |x| {
            let v = iv[x as usize];
            let m = <P::Inx as Num>::MAX;
            same!(<P::Inx as PtrInx>::max().get() as u128, m.min(U), "max()");
            let t = v & m;
            if t == 0 {
                return Ok(false);
            }
            let i = <P::Inx as PtrInx>::new(NonZeroUsize::new(v as usize).unwrap());
            same!(i.num(), t, "new({v})");
            same!(PtrInx::get(i).get() as u128, t, "get() of new({v})");
            Ok(true)
        },
    );
    if has_gen {
        let gv = values(<P::Gen as Num>::MAX, 70_000);
        let gv2 = gv.clone();
        c.enumerate(
            &format!("{name}{inx}: generation increments"),
            gv.len() as u64,
            move |x| format!("{}", gv2[x as usize]),
            move |x| {
                let v = gv[x as usize];
                same!(<P::Gen as PtrGen>::one().num(), 1, "one()");
                same!(<P::Gen as PtrGen>::two().num(), 2, "two()");
                let g = P::Gen::of(v);
                if v == <P::Gen as Num>::MAX {
                    ensure!(panics(|| PtrGen::increment(g)).is_err(), "increment of the maximum did not panic");
                } else {
                    same!(PtrGen::increment(g).num(), v + 1, "increment({v})");
                }
                Ok(true)
            },
        );
    }

    // single pointers
    let (n, m) = (inxs.len() as u64, gens.len() as u64);
    let (i2, g2) = (inxs.clone(), gens.clone());
    c.enumerate(
        &format!("{name}{inx}: pointers"),
        n * m,
        move |x| format!("{:?}", (i2[(x % n) as usize], g2[(x / n) as usize])),
        move |x| {
            let v = (inxs[(x % n) as usize], gens[(x / n) as usize]);
            let p: P = mk(v);
            same!(pair(p), v, "inx() and generation()");
            same!(pair(p.clone()), v, "inx() and generation() of a clone");
            same!(P::name(), name, "name()");
            let want = if has_gen { format!("{name}[{:x}]({:x})", v.0, v.1) } else { format!("{name}[{:x}]", v.0) };
            same!(format!("{p:?}"), want, "Debug");
            same!(format!("{p}"), want, "Display");
            ensure!(!format!("{p:#?}").contains('\n'), "Debug with newlines");
            let inv = P::invalid();
            let vi = (<P::Inx as Num>::MAX.min(U), has_gen as u128);
            same!(pair(inv), vi, "invalid()");
            same!(pair(P::default()), vi, "default()");
            same!(p == inv, v == vi, "{p:?} == invalid()");
            // recasting by a map that has it, and by one that does not
            let q: P = mk((1 + (v.0 % 3), if has_gen { 2 } else { 0 }));
            let mut r = p;
            same!(r.recast(&Map([(p, q)].into())), Ok(()), "recast {p:?}");
            same!(r, q, "{p:?} after recasting");
            let mut r = p;
            same!(r.recast(&Map(BTreeMap::new())), Err(p), "recast {p:?} by nothing");
            same!(r, p, "{p:?} after failed recasting");
            let other: P = mk((if v.0 == 1 { 2 } else { v.0 - 1 }, v.1));
            same!(r.recast(&Map([(other, q)].into())), Err(p), "recast {p:?} by a map with a neighbour");
            let mut o = Some(p);
            same!(o.recast(&Map([(p, q)].into())), Ok(()), "recast an optional pointer");
            same!(o, Some(q), "an optional pointer after recasting");
            // the version without generation
            let w = PtrNoGen::<P>::_from_raw(p.inx(), ());
            same!(w.inx().num(), v.0, "inx() of PtrNoGen");
            same!(format!("{w:?}"), format!("{name}[{:x}]", v.0), "Debug of PtrNoGen");
            same!(format!("{w}"), format!("{name}[{:x}]", v.0), "Display of PtrNoGen");
            same!(PtrNoGen::<P>::name(), name, "name() of PtrNoGen");
            let mut w2 = w;
            let to = PtrNoGen::<P>::_from_raw(q.inx(), ());
            same!(w2.recast(&Map([(w, to)].into())), Ok(()), "recast of PtrNoGen");
            same!(w2, to, "PtrNoGen after recasting");
            let mut w2 = w;
            same!(w2.recast(&Map(BTreeMap::new())), Err(w), "recast of PtrNoGen by nothing");
            same!(PtrNoGen::<P>::invalid().inx().num(), vi.0, "invalid() of PtrNoGen");
            same!(PtrNoGen::<P>::default().inx().num(), vi.0, "default() of PtrNoGen");
            written(p, v, has_gen)?;
            Ok(true)
        },
    );

    // pairs
    let (fi, fg) = if c.thorough {
        (values(<P::Inx as Num>::MAX, 20), values(<P::Gen as Num>::MAX, 20))
    } else {
        (few(<P::Inx as Num>::MAX), few(<P::Gen as Num>::MAX))
    };
    let all: Vec<(u128, u128)> = fi.iter().flat_map(|i| fg.iter().map(move |g| (*i, *g))).collect();
    let n = all.len() as u64;
    let a2 = all.clone();
    c.enumerate(
        &format!("{name}{inx}: pairs of pointers"),
        n * n,
        move |x| format!("{:?} {:?}", a2[(x % n) as usize], a2[(x / n) as usize]),
        move |x| {
            let (v, w) = (all[(x % n) as usize], all[(x / n) as usize]);
            let (p, q): (P, P) = (mk(v), mk(w));
            same!(p == q, v == w, "{p:?} == {q:?}");
            same!(p != q, v != w, "{p:?} != {q:?}");
            same!(p.cmp(&q), v.cmp(&w), "{p:?} cmp {q:?}");
            same!(p.partial_cmp(&q), Some(v.cmp(&w)), "{p:?} partial_cmp {q:?}");
            same!((p < q, p <= q, p > q, p >= q), (v < w, v <= w, v > w, v >= w), "{p:?} < {q:?}");
            if v == w {
                same!(hash(&p), hash(&q), "hash of {p:?}");
            }
            same!(HashSet::from([p]).contains(&q), v == w, "set of {p:?} has {q:?}");
            same!(HashMap::from([(p, 1)]).get(&q).is_some(), v == w, "map of {p:?} has {q:?}");
            same!(BTreeSet::from([p]).contains(&q), v == w, "ordered set of {p:?} has {q:?}");
            let (np, nq) = (PtrNoGen::<P>::_from_raw(p.inx(), ()), PtrNoGen::<P>::_from_raw(q.inx(), ()));
            same!(np == nq, v.0 == w.0, "{np:?} == {nq:?} without generation");
            same!(np.cmp(&nq), v.0.cmp(&w.0), "{np:?} cmp {nq:?} without generation");
            if v.0 == w.0 {
                same!(hash(&np), hash(&nq), "hash without generation");
            }
            Ok(true)
        },
    );

    // the invalid pointer in arenas of every length
    let top = (<P::Inx as Num>::MAX.min(300) - (!has_gen) as u128) as u64;
    c.enumerate(
        &format!("{name}{inx}: the invalid pointer"),
        top + 1,
        |x| format!("{x} elements"),
        move |x| {
            let inv = P::invalid();
            let mut a: Arena<P, u8> = Arena::new();
            let mut ch: ChainArena<P, u8> = ChainArena::new();
            let mut n: ChainNoGenArena<P, u8> = ChainNoGenArena::new();
            let mut o: OrdArena<P, u64, u8> = OrdArena::new();
            let mut s: SurjectArena<P, u8, u8> = SurjectArena::new();
            let mut first = None;
            for k in 0..x {
                let p = a.insert(0);
                ensure!(p != inv, "the arena issued the invalid pointer");
                ensure!(ch.insert_new(0) != inv, "the chain arena issued the invalid pointer");
                ensure!(n.insert_new(0) != inv, "the chain arena without generations issued the invalid pointer");
                ensure!(o.insert(k, 0).0 != inv, "the ordered arena issued the invalid pointer");
                let p = match first {
                    None => s.insert(0, 0),
                    Some(f) => s.insert_key(f, 0).map_err(|_| "insert_key refused")?,
                };
                first = Some(p);
                ensure!(p != inv, "the surject arena issued the invalid pointer");
            }
            ensure!(!a.contains(inv) && a.get(inv).is_none() && a.remove(inv).is_none(), "the arena accepts the invalid pointer");
            ensure!(!ch.contains(inv) && ch.get(inv).is_none() && ch.remove(inv).is_none(), "the chain arena accepts the invalid pointer");
            ensure!(!n.contains(inv) && n.get(inv).is_none() && n.remove(inv).is_none(), "the chain arena without generations accepts the invalid pointer");
            ensure!(!o.contains(inv) && o.get(inv).is_none() && o.remove(inv).is_none(), "the ordered arena accepts the invalid pointer");
            ensure!(!s.contains(inv) && s.get(inv).is_none() && s.remove(inv).is_none(), "the surject arena accepts the invalid pointer");
            same!(
                std::mem::size_of::<Option<P>>(),
                std::mem::size_of::<P>(),
                "size of an optional pointer"
            );
            same!(std::mem::size_of::<Option<PtrNoGen<P>>>(), std::mem::size_of::<P::Inx>(), "size of an optional pointer without generation");
            Ok(true)
        },
    );
}

#[cfg(not(feature = "serde"))]
fn written<P: Ptr>(_: P, _: (u128, u128), _: bool) -> R {
    Ok(())
}

/// Written as the index, read with the initial generation
#[cfg(feature = "serde")]
fn written<P: Ptr>(p: P, v: (u128, u128), has_gen: bool) -> R
where
    P::Inx: Num,
    P::Gen: Num,
{
    let want = (v.0, if has_gen { 2 } else { 0 });
    // numbers of 128 bits are not supported by this format
    if v.0 <= u64::MAX as u128 && std::mem::size_of::<P::Inx>() <= 8 {
        let s = ron::to_string(&p).map_err(|e| e.to_string())?;
        same!(s, format!("{}", v.0), "{p:?} as text");
        let q: P = ron::from_str(&s).map_err(|e| e.to_string())?;
        same!(pair(q), want, "{p:?} read from text");
        ensure!(ron::from_str::<P>("0").is_err(), "zero was read as a pointer");
        let q: PtrNoGen<P> = ron::from_str(&s).map_err(|e| e.to_string())?;
        same!(q.inx().num(), v.0, "{p:?} read from text without generation");
        same!(ron::to_string(&q).map_err(|e| e.to_string())?, s, "{q:?} as text");
    }
    let b = postcard::to_allocvec(&p).map_err(|e| e.to_string())?;
    same!(b, postcard::to_allocvec(&p.inx()).map_err(|e| e.to_string())?, "{p:?} as bytes");
    let q: P = postcard::from_bytes(&b).map_err(|e| e.to_string())?;
    same!(pair(q), want, "{p:?} read from bytes");
    Ok(())
}

/// Pointer types with one index type and each generation type
macro_rules! row {
    ($m:ident, $i:ident) => {
        mod $m {
            use super::*;
            ptr_struct!(N[$i](); Other[$i]());
            ptr_struct!(G8[$i](NonZeroU8); G16[$i](NonZeroU16) doc="a pointer");
            ptr_struct!(G32[$i](NonZeroU32));
            ptr_struct!(G64[$i](NonZeroU64));
            ptr_struct!(G128[$i](NonZeroU128));
            ptr_struct!(Def[$i]; Def2[$i] doc="a pointer");
            pub fn all(c: &mut Ctx) {
                one::<N>(c, "N", concat!("[", stringify!($i), "]"));
                one::<Other>(c, "Other", concat!("[", stringify!($i), "]"));
                one::<G8>(c, "G8", concat!("[", stringify!($i), "]"));
                one::<G16>(c, "G16", concat!("[", stringify!($i), "]"));
                one::<G32>(c, "G32", concat!("[", stringify!($i), "]"));
                one::<G64>(c, "G64", concat!("[", stringify!($i), "]"));
                one::<G128>(c, "G128", concat!("[", stringify!($i), "]"));
                one::<Def>(c, "Def", concat!("[", stringify!($i), "]"));
                one::<Def2>(c, "Def2", concat!("[", stringify!($i), "]"));
                c.enumerate(concat!("default generation with index ", stringify!($i)), 1, |_| String::new(), |_| {
                    let _: NonZeroU64 = Def::invalid().generation();
                    let _: NonZeroU64 = Def2::invalid().generation();
                    let _: $i = Def2::invalid().inx();
                    Ok(true)
                });
            }
        }
    };
}
row!(iz, NonZeroUsize);
row!(i8, NonZeroU8);
row!(i16, NonZeroU16);
row!(i32, NonZeroU32);
row!(i64, NonZeroU64);
row!(i128, NonZeroU128);
ptr_struct!(Plain; Plain2 doc="a pointer");
ptr_struct!(NoGen(); NoGen2());
ptr_struct!(Small(NonZeroU8); Small2(NonZeroU16));

fn main() {
    run(|c| match c.prop.as_str() {
        "A05" => {
            one::<Plain>(c, "Plain", "");
            one::<Plain2>(c, "Plain2", "");
            one::<NoGen>(c, "NoGen", "");
            one::<NoGen2>(c, "NoGen2", "");
            one::<Small>(c, "Small", "");
            one::<Small2>(c, "Small2", "");
            c.enumerate("default types", 1, |_| String::new(), |_| {
                let _: (NonZeroUsize, NonZeroU64) = (Plain::invalid().inx(), Plain::invalid().generation());
                let _: (NonZeroUsize, ()) = (NoGen::invalid().inx(), NoGen::invalid().generation());
                let _: (NonZeroUsize, NonZeroU8) = (Small::invalid().inx(), Small::invalid().generation());
                fn bounds<T: Send + Sync + Unpin + Copy + std::panic::UnwindSafe + std::panic::RefUnwindSafe + 'static>() {}
                bounds::<Plain>();
                bounds::<NoGen>();
                bounds::<PtrNoGen<Plain>>();
                Ok(true)
            });
            iz::all(c);
            i8::all(c);
            i16::all(c);
            i32::all(c);
            i64::all(c);
            i128::all(c);
        }
        _ => (),
    })
}
