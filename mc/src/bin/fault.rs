//! Panics in every callback: creation functions, mapping functions, predicates, comparisons, clones and
//! destructors panic at each of their invocations, in every operation that has any, from many states.

use mc::kind::{Kind, T};
use mc::tv::{arm, event, fuse_left, FUSE_CALL, FUSE_CLONE, FUSE_CMP, FUSE_DROP};
use mc::*;
use std::cmp::Ordering;
use triple_arena::utils::ChainNoGenArena;
use triple_arena::{Arena, ChainArena, OrdArena, Ptr, SurjectArena};

/// What is demanded of the arena after the panic
#[derive(Clone, Copy, PartialEq, Debug)]
enum After {
    /// as before the call
    Same,
    /// some of the elements that the predicate chose are gone, all else is as before
    Some,
    /// it can be read without meeting dropped elements, and can be cleared, used again and dropped
    Usable,
}
use After::*;

struct F<A, P> {
    name: &'static str,
    mask: u8,
    after: After,
    f: fn(&mut Option<A>, &A, Option<P>),
}

trait Faults<P: Px>: Kind<P> {
    fn faults() -> Vec<F<Self, P>>;
}
macro_rules! faults {
    ($($name:expr, $mask:expr, $after:expr, $f:expr;)*) => {
        vec![$(F { name: $name, mask: $mask, after: $after, f: $f }),*]
    };
}

fn call() {
    event(FUSE_CALL)
}
fn new(id: u32) -> T {
    call();
    T::new(id)
}
/// an arena with a few elements, for being cloned into
fn some<P: Px, A: Kind<P>>() -> A {
    let mut a = A::new();
    for id in 900..903 {
        a.ins(0, id, None);
    }
    a
}

impl<P: Px> Faults<P> for Arena<P, T> {
    fn faults() -> Vec<F<Self, P>> {
        faults! {
            "insert_with", FUSE_CALL, Same, |a, _, _| { a.as_mut().unwrap().insert_with(|_| new(1)); };
            "try_insert_with", FUSE_CALL, Same, |a, _, _| { let _ = a.as_mut().unwrap().try_insert_with(|_| new(1)); };
            "remove_by", FUSE_CALL, Some, |a, _, _| a.as_mut().unwrap().remove_by(|_, t| { call(); t.id() % 2 == 0 });
            "remove_by of all", FUSE_CALL, Some, |a, _, _| a.as_mut().unwrap().remove_by(|_, _| { call(); true });
            "remove_by, dropping", FUSE_DROP, Usable, |a, _, _| a.as_mut().unwrap().remove_by(|_, _| true);
            "compress_and_shrink_with", FUSE_CALL, Usable, |a, _, _| a.as_mut().unwrap().compress_and_shrink_with(|_, _, _| call());
            "clone_from_with", FUSE_CALL, Usable, |a, o, _| a.as_mut().unwrap().clone_from_with(o, |_, t| new(t.id()));
            "clone_from_with, dropping", FUSE_DROP, Usable, |a, o, _| a.as_mut().unwrap().clone_from_with(o, |_, t| new(t.id()));
            "clone", FUSE_CLONE, Same, |a, _, _| drop(a.as_mut().unwrap().clone());
            "clone_from", FUSE_CLONE, Usable, |a, o, _| a.as_mut().unwrap().clone_from(o);
            "clone_from, dropping", FUSE_DROP, Usable, |a, o, _| a.as_mut().unwrap().clone_from(o);
            "clear", FUSE_DROP, Usable, |a, _, _| a.as_mut().unwrap().clear();
            "clear_and_shrink", FUSE_DROP, Usable, |a, _, _| a.as_mut().unwrap().clear_and_shrink();
            "drain, abandoned", FUSE_DROP, Usable, |a, _, _| { let mut d = a.as_mut().unwrap().drain(); let _ = d.next(); };
            "drain, complete", FUSE_DROP, Usable, |a, _, _| a.as_mut().unwrap().drain().for_each(drop);
            "into_iter, abandoned", FUSE_DROP, Usable, |a, _, _| { let mut d = a.take().unwrap().into_iter(); let _ = d.next(); };
            "drop", FUSE_DROP, Usable, |a, _, _| drop(a.take());
            "replace_and_update_gen", FUSE_DROP, Usable, |a, _, p| if let Option::Some(p) = p { drop(a.as_mut().unwrap().replace_and_update_gen(p, T::new(5))) };
            "remove", FUSE_DROP, Usable, |a, _, p| if let Option::Some(p) = p { drop(a.as_mut().unwrap().remove(p)) };
            "from an iterator", FUSE_CALL, Same, |_, _, _| drop((0..5).map(new).collect::<Self>());
            "comparison of arenas", FUSE_CLONE | FUSE_CMP | FUSE_DROP, Same, |a, o, _| { let _ = a.as_ref().unwrap() == o; };
        }
    }
}
macro_rules! chain_faults {
    ($t:ident, $i:ident, $($extra:tt)*) => {
        impl<P: Px> Faults<P> for $t<P, T> {
            fn faults() -> Vec<F<Self, P>> {
                let mut v: Vec<F<Self, P>> = faults! {
                    "insert_new_with", FUSE_CALL, Same, |a, _, _| { a.as_mut().unwrap().insert_new_with(|_| new(1)); };
                    "insert_new_cyclic_with", FUSE_CALL, Same, |a, _, _| { a.as_mut().unwrap().insert_new_cyclic_with(|_| new(1)); };
                    "insert_with after", FUSE_CALL, Same, |a, _, p| if let Option::Some(p) = p { a.as_mut().unwrap().insert_with((Option::Some($i(p)), None), |_| new(1)); };
                    "insert_with before", FUSE_CALL, Same, |a, _, p| if let Option::Some(p) = p { a.as_mut().unwrap().insert_with((None, Option::Some($i(p))), |_| new(1)); };
                    "insert_with between", FUSE_CALL, Same, |a, _, p| if let Option::Some(p) = p {
                        let a = a.as_mut().unwrap();
                        let n = a.get_link(p).unwrap().next();
                        if n.is_some() {
                            a.insert_with((Option::Some($i(p)), n), |_| new(1));
                        }
                    };
                    "insert_with, new", FUSE_CALL, Same, |a, _, _| { a.as_mut().unwrap().insert_with((None, None), |_| new(1)); };
                    "compress_and_shrink_with", FUSE_CALL, Usable, |a, _, _| a.as_mut().unwrap().compress_and_shrink_with(|_, _, _| call());
                    "clone_from_with", FUSE_CALL, Usable, |a, o, _| a.as_mut().unwrap().clone_from_with(o, |_, l| new(l.t.id()));
                    "clone_to_arena", FUSE_CALL, Same, |a, _, _| { let mut b: Arena<P, T> = some(); a.as_ref().unwrap().clone_to_arena(&mut b, |_, l| new(l.t.id())); };
                    "clone", FUSE_CLONE, Same, |a, _, _| drop(a.as_mut().unwrap().clone());
                    "clone_from", FUSE_CLONE, Usable, |a, o, _| a.as_mut().unwrap().clone_from(o);
                    "clone_from, dropping", FUSE_DROP, Usable, |a, o, _| a.as_mut().unwrap().clone_from(o);
                    "clear", FUSE_DROP, Usable, |a, _, _| a.as_mut().unwrap().clear();
                    "clear_and_shrink", FUSE_DROP, Usable, |a, _, _| a.as_mut().unwrap().clear_and_shrink();
                    "remove_chain", FUSE_DROP, Usable, |a, _, p| if let Option::Some(p) = p { let _ = a.as_mut().unwrap().remove_chain(p); };
                    "remove", FUSE_DROP, Usable, |a, _, p| if let Option::Some(p) = p { drop(a.as_mut().unwrap().remove(p)) };
                    "into_iter, abandoned", FUSE_DROP, Usable, |a, _, _| { let mut d = a.take().unwrap().into_iter(); let _ = d.next(); };
                    "drop", FUSE_DROP, Usable, |a, _, _| drop(a.take());
                };
                v.extend::<Vec<F<Self, P>>>(faults! { $($extra)* });
                v
            }
        }
    };
}
fn id<X>(x: X) -> X {
    x
}
fn inx<P: Ptr>(p: P) -> P::Inx {
    p.inx()
}
chain_faults!(ChainArena, id,
    "drain, abandoned", FUSE_DROP, Usable, |a, _, _| { let mut d = a.as_mut().unwrap().drain(); let _ = d.next(); };
    "drain, complete", FUSE_DROP, Usable, |a, _, _| a.as_mut().unwrap().drain().for_each(drop);
);
chain_faults!(ChainNoGenArena, inx,
    "clone_to_chain_arena", FUSE_CALL, Same, |a, _, _| { let mut b: ChainArena<P, T> = some(); a.as_ref().unwrap().clone_to_chain_arena(&mut b, |_, t| new(t.id())); };
);

impl<P: Px> Faults<P> for OrdArena<P, T, T> {
    fn faults() -> Vec<F<Self, P>> {
        let mut v: Vec<F<Self, P>> = faults! {
            "compress_and_shrink_with", FUSE_CALL, Usable, |a, _, _| a.as_mut().unwrap().compress_and_shrink_with(|_, _, _, _| call());
            "clone_from_with", FUSE_CALL, Usable, |a, o, _| a.as_mut().unwrap().clone_from_with(o, |_, t| new(t.id()));
            "clone_from_with, cloning keys", FUSE_CLONE, Usable, |a, o, _| a.as_mut().unwrap().clone_from_with(o, |_, t| new(t.id()));
            "clone_to_arena", FUSE_CALL, Same, |a, _, _| { let mut b: Arena<P, T> = some(); a.as_ref().unwrap().clone_to_arena(&mut b, |_, _, t| new(t.id())); };
            "clone_to_chain_arena", FUSE_CALL, Same, |a, _, _| { let mut b: ChainArena<P, T> = some(); a.as_ref().unwrap().clone_to_chain_arena(&mut b, |_, _, t| new(t.id())); };
            "clone", FUSE_CLONE, Same, |a, _, _| drop(a.as_mut().unwrap().clone());
            "clone_from", FUSE_CLONE, Usable, |a, o, _| a.as_mut().unwrap().clone_from(o);
            "clone_from, dropping", FUSE_DROP, Usable, |a, o, _| a.as_mut().unwrap().clone_from(o);
            "find_with", FUSE_CALL, Same, |a, _, _| { let _ = a.as_ref().unwrap().find_with(|_, _, _| { call(); Ordering::Less }); };
            "find_similar_with", FUSE_CALL, Same, |a, _, _| { let _ = a.as_ref().unwrap().find_similar_with(|_, _, _| { call(); Ordering::Greater }); };
            "clear", FUSE_DROP, Usable, |a, _, _| a.as_mut().unwrap().clear();
            "clear_and_shrink", FUSE_DROP, Usable, |a, _, _| a.as_mut().unwrap().clear_and_shrink();
            "drain, abandoned", FUSE_DROP, Usable, |a, _, _| { let mut d = a.as_mut().unwrap().drain(); let _ = d.next(); };
            "drain, complete", FUSE_DROP, Usable, |a, _, _| a.as_mut().unwrap().drain().for_each(drop);
            "into_iter, abandoned", FUSE_DROP, Usable, |a, _, _| { let mut d = a.take().unwrap().into_iter(); let _ = d.next(); };
            "drop", FUSE_DROP, Usable, |a, _, _| drop(a.take());
            "remove", FUSE_DROP, Usable, |a, _, p| if let Option::Some(p) = p { drop(a.as_mut().unwrap().remove(p)) };
            "insert of an equal key, dropping", FUSE_DROP, Usable, |a, _, p| if let Option::Some(p) = p {
                let a = a.as_mut().unwrap();
                let k = T::new(a.get_key(p).unwrap().id());
                drop(a.insert(k, T::new(5)))
            };
        };
        macro_rules! key {
            ($name:expr, $k:expr) => {
                v.extend::<Vec<F<Self, P>>>(faults! {
                    concat!("insert of ", $name), FUSE_CMP, Same, |a, _, p| { let a = a.as_mut().unwrap(); let k = $k(a, p); let _ = a.insert(k, T::new(5)); };
                    concat!("insert_nonhereditary of ", $name), FUSE_CMP, Same, |a, _, p| { let a = a.as_mut().unwrap(); let k = $k(a, p); let _ = a.insert_nonhereditary(k, T::new(5)); };
                    concat!("insert_linear of ", $name), FUSE_CMP, Same, |a, _, p| { let a = a.as_mut().unwrap(); let k = $k(a, p); let _ = a.insert_linear(p.unwrap_or(P::invalid()), 1, k, T::new(5)); };
                    concat!("insert_nonhereditary_linear of ", $name), FUSE_CMP, Same, |a, _, p| { let a = a.as_mut().unwrap(); let k = $k(a, p); let _ = a.insert_nonhereditary_linear(p.unwrap_or(P::invalid()), 3, k, T::new(5)); };
                    concat!("find_key of ", $name), FUSE_CMP, Same, |a, _, p| { let a = a.as_mut().unwrap(); let k = $k(a, p); let _ = a.find_key(&k); };
                    concat!("find_similar_key_linear of ", $name), FUSE_CMP, Same, |a, _, p| { let a = a.as_mut().unwrap(); let k = $k(a, p); let _ = a.find_similar_key_linear(p.unwrap_or(P::invalid()), 2, &k); };
                });
            };
        }
        key!("the largest key", |_: &Self, _: Option<P>| T::new(1 << 21));
        key!("the smallest key", |_: &Self, _: Option<P>| T::new(1 << 19));
        key!("an equal key", |a: &Self, p: Option<P>| T::new(p.map_or(1 << 20, |p| a.get_key(p).unwrap().id())));
        v
    }
}
impl<P: Px> Faults<P> for SurjectArena<P, T, T> {
    fn faults() -> Vec<F<Self, P>> {
        faults! {
            "insert_with", FUSE_CALL, Same, |a, _, _| { a.as_mut().unwrap().insert_with(|_| (new(1), new(2))); };
            "insert_key_with", FUSE_CALL, Same, |a, _, p| if let Option::Some(p) = p { let _ = a.as_mut().unwrap().insert_key_with(p, |_| new(1)); };
            "compress_and_shrink_with", FUSE_CALL, Usable, |a, _, _| a.as_mut().unwrap().compress_and_shrink_with(|_, _, _, _| call());
            "clone_from_with", FUSE_CALL, Usable, |a, o, _| a.as_mut().unwrap().clone_from_with(o, |_, k| new(k.id()), |_, v| new(v.id()));
            "clone_keys_to_arena", FUSE_CALL, Same, |a, _, _| { let mut b: Arena<P, T> = some(); a.as_ref().unwrap().clone_keys_to_arena(&mut b, |_, k| new(k.id())); };
            "clone_keys_to_chain_arena", FUSE_CALL, Same, |a, _, _| { let mut b: ChainArena<P, T> = some(); a.as_ref().unwrap().clone_keys_to_chain_arena(&mut b, |_, k| new(k.id())); };
            "clone", FUSE_CLONE, Same, |a, _, _| drop(a.as_mut().unwrap().clone());
            "clone_from", FUSE_CLONE, Usable, |a, o, _| a.as_mut().unwrap().clone_from(o);
            "clone_from, dropping", FUSE_DROP, Usable, |a, o, _| a.as_mut().unwrap().clone_from(o);
            "clear", FUSE_DROP, Usable, |a, _, _| a.as_mut().unwrap().clear();
            "clear_and_shrink", FUSE_DROP, Usable, |a, _, _| a.as_mut().unwrap().clear_and_shrink();
            "remove", FUSE_DROP, Usable, |a, _, p| if let Option::Some(p) = p { drop(a.as_mut().unwrap().remove(p)) };
            "remove_key", FUSE_DROP, Usable, |a, _, p| if let Option::Some(p) = p { drop(a.as_mut().unwrap().remove_key(p)) };
            "union", FUSE_DROP, Usable, |a, _, p| if let Option::Some(p) = p {
                let a = a.as_mut().unwrap();
                let q = a.ptrs().last().unwrap();
                drop(a.union(p, q))
            };
            "drop", FUSE_DROP, Usable, |a, _, _| drop(a.take());
        }
    }
}

const STEPS: &[&str] = &["insert", "insert attached to the first", "remove the first", "remove the last", "connect, unite or replace", "reserve", "insert in a ring"];

fn build<P: Px, A: Kind<P>>(steps: &[usize]) -> A {
    let mut a = A::new();
    let mut id = 0;
    for s in steps {
        let ps = a.ptrs();
        id += 1;
        match s {
            0 => {
                a.ins(0, id, None);
            }
            1 => {
                let v = match A::NAME {
                    "arena" => 1,
                    // equal keys
                    "ord" => 3,
                    "surject" => 2,
                    _ => 1,
                };
                if a.ins(v, id, ps.first().copied()).is_none() {
                    a.ins(0, id, None);
                }
            }
            2 => {
                if let Option::Some(p) = ps.first() {
                    let _ = a.inv(0, *p, id);
                }
            }
            3 => {
                if let Option::Some(p) = ps.last() {
                    let _ = a.inv(0, *p, id);
                }
            }
            4 => {
                if let (Option::Some(p), Option::Some(q)) = (ps.last(), ps.first()) {
                    let v = A::NON.iter().position(|x| *x == "connect").unwrap_or(0);
                    let _ = a.non(v, *p, *q);
                }
            }
            5 => a.reserve(1),
            _ => {
                if let Option::Some(v) = A::INS.iter().position(|x| *x == "insert_new_cyclic") {
                    a.ins(v, id, None);
                }
            }
        }
    }
    a
}

type Snap = (Vec<(Raw, Option<u32>, Vec<Raw>)>, u64, usize);
fn snap<P: Px, A: Kind<P>>(a: &A) -> Snap {
    (a.ptrs().into_iter().map(|p| (p.raw(), a.id(p), a.set(p).into_iter().map(|q| q.raw()).collect())).collect(), a.gen(), a.len())
}

/// The arena is used like any other: nothing in `gone` may come back
fn usable<P: Px, A: Kind<P>>(a: &mut A, gone: &[P]) -> R {
    let start = a.len();
    let mut ps = a.ptrs();
    same!(ps.len(), start, "pointers for the number of elements");
    for id in 0..a.cap() as u32 - start as u32 + 2 {
        let p = a.ins(0, 1000 + id, None).ok_or("insertion refused")?;
        ensure!(!ps.contains(&p), "insertion gave {p:?} which is in use");
        ensure!(!gone.contains(&p), "insertion gave {p:?} which had been invalidated");
        same!(a.id(p), Option::Some(1000 + id), "element just inserted");
        ps.push(p);
        a.sane()?;
    }
    same!(a.len(), ps.len(), "number of elements");
    for p in gone {
        ensure!(!a.has(*p), "{p:?} is valid again");
    }
    for p in ps {
        a.inv(0, p, 0)?;
        ensure!(!a.has(p), "{p:?} is valid after removal");
        a.sane()?;
    }
    same!(a.len(), 0, "number of elements after removing all");
    Ok(())
}

fn judge<P: Px, A: Faults<P>>(f: &F<A, P>, steps: &[usize], which: usize, nth: u32, how: u64) -> R<bool> {
    let mut a = Option::Some(build::<P, A>(steps));
    let other: A = build(&steps.iter().rev().copied().chain([0, 0, 0, 2]).collect::<Vec<_>>());
    let before = snap(a.as_ref().unwrap());
    let other_before = snap(&other);
    let ps = a.as_ref().unwrap().ptrs();
    let p = match which {
        0 => ps.first().copied(),
        1 => ps.get(ps.len() / 2).copied(),
        _ => ps.last().copied(),
    };
    arm(f.mask, nth);
    let r = panics(|| (f.f)(&mut a, &other, p));
    let fired = r.is_err();
    ensure!(fired == (fuse_left() == 0), "unexpected panic: {}", panic_message());
    arm(0, 0);
    if !fired {
        return Ok(false);
    }
    if f.after == Usable {
        // what a panic prevents from being released may stay
        tv::allow_leaks();
    }
    same!(snap(&other), other_before, "the other arena");
    other.sane()?;
    let mut a = match a {
        None => {
            drop(other);
            return Ok(true);
        }
        Option::Some(a) => a,
    };
    match f.after {
        Same => {
            same!(snap(&a), before, "pointers, elements and relations, generation, length after the panic");
            a.sane()?;
            tv::check_live(a.values() + other.values())?;
            if how == 0 {
                usable(&mut a, &[])?;
            }
        }
        Some => {
            tv::check_live(a.values() + other.values())?;
            let after = snap(&a);
            let mut gone = vec![];
            for (p, x) in ps.iter().zip(&before.0) {
                if a.has(*p) {
                    same!(a.id(*p), x.1, "element at {p:?} after the panic");
                } else {
                    ensure!(f.name == "remove_by of all" || x.1.unwrap() % 2 == 0, "{p:?} is gone though the predicate had not chosen it");
                    gone.push(*p);
                }
            }
            same!(gone.len() + after.2, before.2, "elements gone and left");
            a.sane()?;
            let gone = if P::HAS_GEN { gone } else { vec![] };
            if how == 0 {
                usable(&mut a, &gone)?;
            }
        }
        Usable => {
            // only that nothing released is met
            let _ = panics(|| {
                for p in a.ptrs() {
                    a.id(p);
                }
            });
            if how == 0 {
                a.inv(A::INV.iter().position(|x| x.0 == "clear").unwrap(), P::invalid(), 0)?;
                same!(a.len(), 0, "number of elements after clear()");
                a.sane()?;
                usable(&mut a, &[])?;
                a.sane()?;
            } else if how == 1 {
                a = other.cl();
                same!(snap(&a).0, other_before.0, "a clone assigned over it");
            }
        }
    }
    drop(a);
    if let Option::Some(e) = tv::take_err() {
        return Err(e);
    }
    drop(other);
    Ok(true)
}

fn kind<P: Px, A: Faults<P>>(c: &mut Ctx, label: &str, depth: u32) {
    let n = STEPS.len() as u64;
    const NTH: u64 = 9;
    let states = n.pow(depth);
    let seq = move |mut x: u64| {
        (0..depth).map(|_| {
            let s = x % n;
            x /= n;
            s as usize
        }).collect::<Vec<_>>()
    };
    for f in A::faults() {
        // operations that take a pointer get different ones
        c.enumerate(
            &format!("{} {label}: {} ({})", A::NAME, f.name, match f.mask { FUSE_CALL => "function", FUSE_CLONE => "clone", FUSE_CMP => "comparison", _ => "destructor" }),
            states * NTH * 3 * 2,
            move |x| {
                let s: Vec<_> = seq(x / (NTH * 6)).into_iter().map(|s| STEPS[s]).collect();
                format!("insert, {}; panic at invocation {}, pointer number {}, then {}", s.join(", "), x % NTH + 1, x / NTH % 3, ["used further", "dropped"][(x / NTH / 3 % 2) as usize])
            },
            move |x| {
                let mut s = vec![0];
                s.extend(seq(x / (NTH * 6)));
                judge(&f, &s, (x / NTH % 3) as usize, (x % NTH) as u32 + 1, x / NTH / 3 % 2)
            },
        );
    }
}

/// Kinds that can be drained
trait Leak<P: Px>: Faults<P> {
    /// Takes `k` elements out with a drain that is then leaked
    fn leak(&mut self, k: usize) -> Vec<u32>;
}
macro_rules! leak {
    ($t:ty, $x:pat => $e:expr) => {
        impl<P: Px> Leak<P> for $t {
            fn leak(&mut self, k: usize) -> Vec<u32> {
                let mut d = self.drain();
                let v = d.by_ref().take(k).map(|$x| $e).collect();
                std::mem::forget(d);
                v
            }
        }
    };
}
leak!(Arena<P, T>, (_, t) => t.id());
leak!(ChainArena<P, T>, (_, l) => l.t.id());
leak!(ChainNoGenArena<P, T>, (_, l) => l.t.id());
leak!(OrdArena<P, T, T>, (_, _, v) => v.id());

/// Drains that are leaked instead of being dropped: what the arena holds afterwards is unspecified, but elements
/// handed out are never met again and none is dropped twice
fn leaked<P: Px, A: Leak<P>>(c: &mut Ctx, label: &str, depth: u32) {
    let n = STEPS.len() as u64;
    let seq = move |mut x: u64| {
        (0..depth).map(|_| {
            let s = x % n;
            x /= n;
            s as usize
        }).collect::<Vec<_>>()
    };
    const KS: u64 = 7;
    c.enumerate(
        &format!("{} {label}: leaked drains", A::NAME),
        n.pow(depth) * KS,
        move |x| {
            let s: Vec<_> = seq(x / KS).into_iter().map(|s| STEPS[s]).collect();
            format!("insert, insert, {}; drain of {} elements, leaked", s.join(", "), x % KS)
        },
        move |x| {
            let mut s = vec![0, 0];
            s.extend(seq(x / KS));
            let mut a: A = build(&s);
            let k = (x % KS) as usize;
            if k > a.len() {
                return Ok(false);
            }
            let got = a.leak(k);
            tv::allow_leaks();
            same!(got.len(), k, "number of elements drained");
            drop(got);
            let _ = panics(|| {
                for p in a.ptrs() {
                    a.id(p);
                }
            });
            let _ = panics(|| a.ins(0, 99, None));
            let _ = panics(|| a.ptrs().first().map(|p| a.inv(0, *p, 0)));
            let _ = panics(|| a.inv(A::INV.iter().position(|x| x.0 == "clear").unwrap(), P::invalid(), 0));
            let _ = panics(|| a.ins(0, 98, None));
            drop(a);
            match tv::take_err() {
                Option::Some(e) => Err(e),
                None => Ok(true),
            }
        },
    );
}

fn main() {
    run(|c| {
        if c.prop == "X08" {
            fn all<P: Px>(c: &mut Ctx, label: &str, d: u32) {
                leaked::<P, Arena<P, T>>(c, label, d);
                leaked::<P, ChainArena<P, T>>(c, label, d);
                leaked::<P, ChainNoGenArena<P, T>>(c, label, d);
                leaked::<P, OrdArena<P, T, T>>(c, label, d);
            }
            all::<PD>(c, "with generations", c.q(4, 5));
            all::<PN>(c, "without generations", c.q(4, 5));
        }
        if c.prop != "X09" {
            return;
        }
        fn all<P: Px>(c: &mut Ctx, label: &str, d: u32) {
            kind::<P, Arena<P, T>>(c, label, d);
            kind::<P, ChainArena<P, T>>(c, label, d);
            kind::<P, ChainNoGenArena<P, T>>(c, label, d);
            kind::<P, OrdArena<P, T, T>>(c, label, d);
            kind::<P, SurjectArena<P, T, T>>(c, label, d);
        }
        all::<PD>(c, "with generations", c.q(4, 5));
        all::<PN>(c, "without generations", c.q(3, 4));
    })
}
