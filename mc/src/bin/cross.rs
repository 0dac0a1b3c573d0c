//! Properties that all arena kinds share.

use mc::*;
use mc::{w_arena as wa, w_chain as wc, w_ord as wo, w_surject as ws};
use std::cmp::Ordering;
use triple_arena::utils::{ChainNoGenArena, LinkNoGen, PtrInx};
use triple_arena::{Arena, ChainArena, Link, OrdArena, Ptr, Recast, Recaster, SurjectArena};

type A<P> = wa::ArenaWorld<P>;
type C<P> = wc::ChainWorld<P, ChainArena<P, wc::T>>;
type N<P> = wc::ChainWorld<P, ChainNoGenArena<P, wc::T>>;
type O<P> = wo::OrdWorld<P>;
type S<P> = ws::SurjectWorld<P>;

fn ac(groups: u32, max_cap: usize) -> wa::Cfg {
    wa::Cfg { groups: groups | wa::G_BASE, max_cap, ages: false, full: true }
}
fn cc(groups: u32, max_cap: usize) -> wc::Cfg {
    wc::Cfg { groups, max_cap, ages: false, full: true }
}
fn oc(groups: u32, max_cap: usize) -> wo::Cfg {
    wo::Cfg { groups, max_cap, max_len: max_cap, slots: true, ages: false, inert: true, lin: false, full: true }
}
fn sc(groups: u32, max_cap: usize) -> ws::Cfg {
    ws::Cfg { groups, max_cap, ages: false, inert: true, full: true }
}

/// The enabled operation of that name
fn find<W: World>(w: &W, cfg: &W::Cfg, name: &str) -> Option<W::Op> {
    let mut ops = vec![];
    w.ops(cfg, &mut ops);
    ops.into_iter().find(|o| format!("{o:?}").starts_with(name))
}

/// Begins to walk with an advancer and stops after none, one, half or all but one of the elements
fn walk<W: mc::large::Large>(w: &mut W, cfg: &W::Cfg, v: u64) -> R {
    let n = w.places().len();
    let Some(op) = find(w, cfg, "AdvStart").or_else(|| find(w, cfg, "CAdvStart")).or_else(|| find(w, cfg, "SAdvStart")) else { return Ok(()) };
    w.apply(cfg, op)?;
    let Some(op) = find(w, cfg, "AdvStep").or_else(|| find(w, cfg, "CAdvStep")).or_else(|| find(w, cfg, "SAdvStep")) else { return Ok(()) };
    for _ in 0..[0, 1, n / 2, n.saturating_sub(1)][v as usize] {
        w.apply(cfg, op)?;
    }
    Ok(())
}

/// Clones into a second arena, changes the first, or goes on with the second
fn fork<W: mc::large::Large>(w: &mut W, cfg: &W::Cfg, v: u64) -> R {
    let op = find(w, cfg, "CloneKeep").ok_or("cloning is not enabled")?;
    w.apply(cfg, op)?;
    let p = w.places();
    let rem = |a: u16| W::step(mc::large::Step::Remove, a);
    match v {
        0 => (),
        // the source loses every third
        1 => {
            for (_, a) in p.iter().enumerate().rev().filter(|x| x.0 % 3 == 1) {
                w.apply(cfg, rem(*a))?;
            }
        }
        // the source grows
        2 => {
            for i in 0..p.len() {
                if let Some(op) = w.ins(0, i) {
                    w.apply(cfg, op)?;
                }
            }
        }
        // the clone loses half
        _ => {
            let op = find(w, cfg, "SwapShadow").ok_or("swapping is not enabled")?;
            w.apply(cfg, op)?;
            for (_, a) in p.iter().enumerate().rev().filter(|x| x.0 % 2 == 1) {
                w.apply(cfg, rem(*a))?;
            }
        }
    }
    Ok(())
}

/// An element that points somewhere
#[derive(Clone, Debug, PartialEq)]
struct G {
    id: u32,
    to: Option<PD>,
}
impl Recast<PD> for G {
    fn recast<R: Recaster<Item = PD>>(&mut self, r: &R) -> Result<(), PD> {
        self.to.recast(r)
    }
}

/// Every graph of up to `m` nodes stored in each arena kind, compressed and recast through the map that
/// compression returns
fn recasting(c: &mut Ctx, m: usize) {
    for kind in 0..5u64 {
        let name = ["arena", "chain", "nogen-chain", "ord", "surject"][kind as usize];
        let ch = m as u64 + 1;
        let count = (1u64 << m) * ch.pow(m as u32);
        c.enumerate(
            &format!("recasting graphs of {m} nodes in {name}"),
            count,
            move |x| {
                let to: Vec<u64> = (0..m).map(|i| (x >> m) / ch.pow(i as u32) % ch).collect();
                format!("kept nodes {:b} (bit set), targets (0 none) {to:?}", x & ((1 << m) - 1))
            },
            move |x| {
                let keep = |i: usize| x >> i & 1 == 1;
                let to = |i: usize| ((x >> m) / ch.pow(i as u32) % ch) as usize;
                macro_rules! go {
                    ($new:expr, $ins:expr, $get:expr, $set:expr, $rem:expr, $live:expr) => {{
                        let mut a = $new;
                        let mut ps: Vec<PD> = vec![];
                        for i in 0..m {
                            let p = $ins(&mut a, i as u32, ps.last().cloned());
                            ps.push(p);
                        }
                        for i in 0..m {
                            $set(&mut a, ps[i], (to(i) > 0).then(|| ps[to(i) - 1]));
                        }
                        for i in 0..m {
                            if !keep(i) {
                                $rem(&mut a, ps[i]);
                            }
                        }
                        let r: Arena<PD, PD> = a.compress_and_shrink_recaster();
                        let n = (0..m).filter(|i| keep(*i)).count();
                        same!(r.len(), n, "length of the recaster");
                        let mut image = vec![];
                        for i in 0..m {
                            let mut q = ps[i];
                            let got = q.recast(&r);
                            if keep(i) {
                                same!(got, Ok(()), "recasting {:?}", ps[i]);
                                let v: Option<G> = $get(&a, q);
                                same!(v.map(|g| g.id), Some(i as u32), "element at the image of {:?}", ps[i]);
                            } else {
                                same!(got, Err(ps[i]), "recasting {:?}, which was removed", ps[i]);
                                same!(q, ps[i], "a pointer that has no image");
                            }
                            image.push(q);
                            // other generations at the same index
                            let (inx, gen) = ps[i].raw();
                            for g in [gen - 1, gen + 1, gen + 2].into_iter().filter(|g| *g > 0) {
                                let p = PD::mk((inx, g));
                                let mut q = p;
                                same!(q.recast(&r), Err(p), "recasting {p:?}, which never was valid at compression");
                                same!(q, p, "a pointer that has no image");
                            }
                        }
                        let p = PD::mk((m + 5, 2));
                        let mut q = p;
                        same!(q.recast(&r), Err(p), "recasting {p:?}, which is out of bounds");
                        let bad: Vec<PD> = (0..m).filter(|i| keep(*i) && to(*i) > 0 && !keep(to(*i) - 1)).map(|i| ps[to(i) - 1]).collect();
                        let got = a.recast(&r);
                        match got {
                            Err(p) => ensure!(bad.contains(&p), "recasting the arena reported {p:?}, which has an image or is not in it"),
                            Ok(()) => {
                                ensure!(bad.is_empty(), "recasting the arena did not report {bad:?}");
                                for i in 0..m {
                                    if keep(i) {
                                        let v: Option<G> = $get(&a, image[i]);
                                        let want = (to(i) > 0).then(|| image[to(i) - 1]);
                                        same!(v, Some(G { id: i as u32, to: want }), "node {i} after recasting");
                                    }
                                }
                            }
                        }
                        same!($live(&a), n, "number of nodes after recasting");
                        Ok(n > 0)
                    }};
                }
                match kind {
                    0 => go!(
                        Arena::<PD, G>::new(),
                        |a: &mut Arena<PD, G>, id, _: Option<PD>| a.insert(G { id, to: None }),
                        |a: &Arena<PD, G>, p| a.get(p).cloned(),
                        |a: &mut Arena<PD, G>, p, to| a[p].to = to,
                        |a: &mut Arena<PD, G>, p| drop(a.remove(p)),
                        |a: &Arena<PD, G>| a.len()
                    ),
                    1 => go!(
                        ChainArena::<PD, G>::new(),
                        |a: &mut ChainArena<PD, G>, id, l: Option<PD>| a.insert((if id % 3 == 0 { None } else { l }, None), G { id, to: None }).unwrap(),
                        |a: &ChainArena<PD, G>, p| a.get(p).cloned(),
                        |a: &mut ChainArena<PD, G>, p, to| a.get_mut(p).unwrap().to = to,
                        |a: &mut ChainArena<PD, G>, p| drop(a.remove(p)),
                        |a: &ChainArena<PD, G>| a.len()
                    ),
                    2 => go!(
                        ChainNoGenArena::<PD, G>::new(),
                        |a: &mut ChainNoGenArena<PD, G>, id, l: Option<PD>| {
                            a.insert((if id % 3 == 0 { None } else { l.map(|l| l.inx()) }, None), G { id, to: None }).unwrap()
                        },
                        |a: &ChainNoGenArena<PD, G>, p| a.get(p).cloned(),
                        |a: &mut ChainNoGenArena<PD, G>, p, to| a.get_mut(p).unwrap().to = to,
                        |a: &mut ChainNoGenArena<PD, G>, p| drop(a.remove(p)),
                        |a: &ChainNoGenArena<PD, G>| a.len()
                    ),
                    3 => go!(
                        OrdArena::<PD, u32, G>::new(),
                        |a: &mut OrdArena<PD, u32, G>, id: u32, _: Option<PD>| a.insert(id * 7 % 5, G { id, to: None }).0,
                        |a: &OrdArena<PD, u32, G>, p| a.get_val(p).cloned(),
                        |a: &mut OrdArena<PD, u32, G>, p, to| a.get_val_mut(p).unwrap().to = to,
                        |a: &mut OrdArena<PD, u32, G>, p| drop(a.remove(p)),
                        |a: &OrdArena<PD, u32, G>| a.len()
                    ),
                    _ => go!(
                        SurjectArena::<PD, G, G>::new(),
                        |a: &mut SurjectArena<PD, G, G>, id: u32, l: Option<PD>| {
                            let g = G { id, to: None };
                            match l {
                                Some(l) if id % 2 == 1 => a.insert_key(l, g).unwrap(),
                                _ => a.insert(g.clone(), g),
                            }
                        },
                        |a: &SurjectArena<PD, G, G>, p| {
                            // the value of a set points where its first key did when it was made
                            let (k, v) = a.get(p)?;
                            if a.len_key_set(p)?.get() == 1 && k.id == v.id && k.to != v.to {
                                return Some(G { id: 999, to: v.to });
                            }
                            Some(k.clone())
                        },
                        |a: &mut SurjectArena<PD, G, G>, p, to| {
                            let (k, v) = a.get_mut(p).unwrap();
                            k.to = to;
                            if k.id == v.id {
                                v.to = to;
                            }
                        },
                        |a: &mut SurjectArena<PD, G, G>, p| {
                            // a value must not outlive what it names here
                            if let Some(v) = a.get_val_mut(p) {
                                v.to = None;
                                v.id = 500;
                            }
                            drop(a.remove_key(p))
                        },
                        |a: &SurjectArena<PD, G, G>| a.len_keys()
                    ),
                }
            },
        );
    }
    // links stored outside of an arena
    c.enumerate(
        "recasting links",
        4 * 4 * 4 * 8,
        |x| format!("choices {x}"),
        |x| {
            let mut map: Arena<PD, PD> = Arena::new();
            let ps: Vec<PD> = (0..3).map(|_| map.insert(PD::invalid())).collect();
            for (i, p) in ps.iter().enumerate() {
                map[*p] = PD::mk((40 + i, 5));
            }
            let pick = |y: u64| [None, Some(0usize), Some(1), Some(2)][(y % 4) as usize];
            let ch = [pick(x), pick(x / 4), pick(x / 16)];
            let gone: Vec<bool> = (0..3).map(|i| x / 64 >> i & 1 == 1).collect();
            for i in 0..3 {
                if gone[i] {
                    let _ = map.remove(ps[i]);
                }
            }
            let f = |c: Option<usize>| c.map(|i| ps[i]);
            let mut l = Link::new((f(ch[0]), f(ch[1])), f(ch[2]));
            let bad: Vec<PD> = ch.iter().flatten().filter(|i| gone[**i]).map(|i| ps[*i]).collect();
            match l.recast(&map) {
                Err(p) => ensure!(bad.contains(&p), "recasting a link reported {p:?}"),
                Ok(()) => {
                    ensure!(bad.is_empty(), "recasting a link did not report {bad:?}");
                    let g = |c: Option<usize>| c.map(|i| PD::mk((40 + i, 5)));
                    same!((l.prev_next(), l.t), ((g(ch[0]), g(ch[1])), g(ch[2])), "a link after recasting");
                }
            }
            Ok(true)
        },
    );
}

type Cont = Vec<(Raw, u32, u32, Vec<Raw>)>;

/// All histories of `depth` operations, each giving an arena and its contents read out
fn histories<X>(ops: u64, depth: u32, new: impl Fn() -> X, step: impl Fn(&mut X, u64), read: impl Fn(&X) -> Cont) -> Vec<(X, Cont, String)> {
    let mut v = vec![];
    for d in 0..=depth {
        for h in 0..ops.pow(d) {
            let mut a = new();
            let seq: Vec<u64> = (0..d).map(|i| h / ops.pow(i) % ops).collect();
            for o in &seq {
                step(&mut a, *o);
            }
            let c = read(&a);
            v.push((a, c, format!("{seq:?}")));
        }
    }
    v
}

fn pairs<X: Sync>(c: &mut Ctx, name: &str, v: &[(X, Cont, String)], check: impl Fn(&X, &Cont, &X, &Cont) -> R + Sync) {
    let n = v.len() as u64;
    c.enumerate(
        name,
        n * n,
        |x| format!("arenas built by {} and {}", v[(x / n) as usize].2, v[(x % n) as usize].2),
        |x| {
            let (a, b) = (&v[(x / n) as usize], &v[(x % n) as usize]);
            check(&a.0, &a.1, &b.0, &b.1)?;
            Ok(a.1 == b.1)
        },
    );
}

fn eq_check<X: PartialEq>(a: &X, ca: &Cont, b: &X, cb: &Cont) -> R {
    same!(a == b, ca == cb, "equality of arenas with contents {ca:?} and {cb:?}");
    #[allow(clippy::nonminimal_bool)]
    let ne = !(a != b);
    same!(ne, ca == cb, "inequality of arenas with contents {ca:?} and {cb:?}");
    Ok(())
}

/// Values that are not comparable with everything, or not equal to themselves
fn partially_ordered(c: &mut Ctx) {
    let list = |x: u64| -> Vec<(u32, f32)> {
        let v = |i: u32| [None, Some(0.0), Some(1.0), Some(f32::NAN)][(x >> (2 * i) & 3) as usize];
        (0..3).filter_map(|i| v(i).map(|v| (i, v))).collect()
    };
    c.enumerate(
        "comparison with partially ordered values",
        64 * 64,
        move |x| format!("entries {:?} and {:?}", list(x & 63), list(x >> 6)),
        move |x| {
            let (l, m) = (list(x & 63), list(x >> 6));
            let make = |l: &[(u32, f32)]| {
                let mut a: OrdArena<PD, u32, f32> = OrdArena::new();
                for (k, v) in l {
                    let _ = a.insert(*k, *v);
                }
                a
            };
            let (a, b) = (make(&l), make(&m));
            same!(a.partial_cmp(&b), l.partial_cmp(&m), "partial_cmp");
            same!(a == b, l == m, "equality");
            same!((a < b, a <= b, a > b, a >= b), (l < m, l <= m, l > m, l >= m), "the operators of comparison");
            let plain = |l: &[(u32, f32)]| l.iter().map(|x| x.1).collect::<Arena<PD, f32>>();
            let (v, w): (Vec<f32>, Vec<f32>) = (l.iter().map(|x| x.1).collect(), m.iter().map(|x| x.1).collect());
            same!(plain(&l) == plain(&m), v == w, "equality of plain arenas");
            Ok(l.partial_cmp(&m).is_none())
        },
    );
}

/// All pairs of arenas that short histories with few different values make
fn equality(c: &mut Ctx) {
    partially_ordered(c);
    let d = c.q(4, 5);
    {
        let d = c.q(4, 4);
        let v = histories(
            8,
            d,
            Arena::<PD, u32>::new,
            |a, o| {
                let (f, l) = (a.ptrs().next(), a.ptrs().last());
                match o {
                    0 | 1 => drop(a.insert(o as u32)),
                    2 => drop(f.map(|p| a.remove(p))),
                    3 => drop(l.map(|p| a.remove(p))),
                    4 => a.clear(),
                    5 => a.compress_and_shrink(),
                    6 => a.reserve(3),
                    _ => drop(f.map(|p| a.invalidate(p))),
                }
            },
            |a| a.iter().map(|(p, t)| (p.raw(), *t, 0, vec![])).collect(),
        );
        pairs(c, "equality, arena gen", &v, eq_check);
        let v = histories(
            7,
            d,
            Arena::<PN, u32>::new,
            |a, o| {
                let (f, l) = (a.ptrs().next(), a.ptrs().last());
                match o {
                    0 | 1 => drop(a.insert(o as u32)),
                    2 => drop(f.map(|p| a.remove(p))),
                    3 => drop(l.map(|p| a.remove(p))),
                    4 => a.clear_and_shrink(),
                    5 => a.compress_and_shrink(),
                    _ => a.reserve(3),
                }
            },
            |a| a.iter().map(|(p, t)| (p.raw(), *t, 0, vec![])).collect(),
        );
        pairs(c, "equality, arena nogen", &v, eq_check);
    }
    macro_rules! chain {
        ($name:expr, $C:ident, $P:ident, $f:expr, $raw:expr) => {{
            let v = histories(
                9,
                c.q(4, 4),
                $C::<$P, u32>::new,
                |a, o| {
                    let (f, l) = (a.ptrs().next(), a.ptrs().last());
                    match o {
                        0 | 1 => drop(a.insert_new(o as u32)),
                        2 => drop(a.insert_new_cyclic(0)),
                        3 => drop(l.map(|p| a.insert((Some($f(p)), None), 0).is_ok())),
                        4 => drop(f.map(|p| a.remove(p))),
                        5 => drop(f.map(|p| a.break_next(p))),
                        6 => drop(f.and_then(|p| l.map(|q| a.connect(p, q)))),
                        7 => a.compress_and_shrink(),
                        _ => drop(f.and_then(|p| l.map(|q| a.exchange_next(p, q)))),
                    }
                },
                |a| {
                    a.iter().map(|(p, l)| (p.raw(), l.t, l.prev().is_some() as u32 + 2 * l.next().is_some() as u32, [l.prev(), l.next()].into_iter().flatten().map($raw).collect())).collect()
                },
            );
            pairs(c, $name, &v, eq_check);
        }};
    }
    chain!("equality, chain gen", ChainArena, PD, |p| p, |p: PD| p.raw());
    chain!("equality, chain nogen", ChainArena, PN, |p| p, |p: PN| p.raw());
    chain!("equality, nogen-chain gen", ChainNoGenArena, PD, |p: PD| p.inx(), |p| (PtrInx::get(p).get(), 0));
    let v = histories(
        9,
        d.min(4),
        SurjectArena::<PD, u32, u32>::new,
        |a, o| {
            let (f, l) = (a.ptrs().next(), a.ptrs().last());
            match o {
                0 => drop(a.insert(0, 0)),
                1 => drop(a.insert(1, 0)),
                2 => drop(a.insert(0, 1)),
                3 => drop(f.map(|p| a.insert_key(p, 0))),
                4 => drop(f.and_then(|p| l.map(|q| a.union(p, q)))),
                5 => drop(f.map(|p| a.remove_key(p))),
                6 => a.compress_and_shrink(),
                7 => drop(l.map(|p| a.insert_key(p, 1))),
                _ => drop(f.and_then(|p| l.map(|q| a.swap_vals(p, q)))),
            }
        },
        |a| {
            let round = |p: PD| {
                let mut v = vec![];
                let mut at = p.inx();
                loop {
                    let (g, l) = a.get_link_no_gen(at).unwrap();
                    v.push(PD::_from_raw(at, g).raw());
                    at = l.next().unwrap();
                    if at == p.inx() {
                        break v;
                    }
                }
            };
            a.iter().map(|(p, k, v)| (p.raw(), *k, *v, round(p))).collect()
        },
    );
    pairs(c, "equality, surject", &v, |a, ca, b, cb| {
        let e = a == b;
        same!(b == a, e, "equality in both directions");
        if ca == cb {
            ensure!(e, "arenas with contents {ca:?} are not equal");
        } else {
            let sets = |c: &Cont| {
                c.iter()
                    .map(|x| {
                        let mut y = x.clone();
                        y.3.sort();
                        y
                    })
                    .collect::<Vec<_>>()
            };
            if sets(ca) != sets(cb) {
                ensure!(!e, "arenas with contents {ca:?} and {cb:?} are equal");
            }
        }
        Ok(())
    });
    let v = histories(
        9,
        d.min(4),
        OrdArena::<PD, u32, u32>::new,
        |a, o| {
            let (f, l) = (a.first(), a.last());
            match o {
                0 => drop(a.insert(1, 0)),
                1 => drop(a.insert(1, 1)),
                2 => drop(a.insert(2, 0)),
                3 => drop(a.insert(0, 0)),
                4 => drop(a.insert_nonhereditary(1, 0)),
                5 => drop(f.map(|p| a.remove(p))),
                6 => drop(l.map(|p| a.remove(p))),
                7 => a.compress_and_shrink(),
                _ => drop(l.map(|p| a.invalidate(p))),
            }
        },
        |a| a.iter().map(|(_, k, v)| ((0, 0), *k, *v, vec![])).collect(),
    );
    pairs(c, "equality and order, ord", &v, |a, ca, b, cb| {
        eq_check(a, ca, b, cb)?;
        let f = |c: &Cont| c.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>();
        let want = f(ca).cmp(&f(cb));
        same!(a.cmp(b), want, "cmp of arenas with contents {ca:?} and {cb:?}");
        same!(a.partial_cmp(b), Some(want), "partial_cmp");
        same!((a < b, a > b), (want == Ordering::Less, want == Ordering::Greater), "comparison operators");
        Ok(())
    });
    // links
    c.enumerate(
        "equality, links",
        48 * 48,
        |x| format!("links {} and {}", x / 48, x % 48),
        |x| {
            let f = |y: u64| {
                let o = |z: u64| [None, Some(PD::mk((1, 2))), Some(PD::mk((1, 3))), Some(PD::mk((2, 1)))][(z % 4) as usize];
                (o(y), o(y / 4), (y / 16) as u32)
            };
            let (a, b) = (f(x / 48), f(x % 48));
            let l = |a: (Option<PD>, Option<PD>, u32)| Link::new((a.0, a.1), a.2);
            same!(l(a) == l(b), a == b, "equality of links {a:?} and {b:?}");
            let n = |a: (Option<PD>, Option<PD>, u32)| {
                let g = |p: Option<PD>| p.map(|p| PD::mkinx(p.raw().1 as usize));
                LinkNoGen::<PD, u32>::new((g(a.0), g(a.1)), a.2)
            };
            same!(n(a) == n(b), a == b, "equality of generation-less links {a:?} and {b:?}");
            same!((l(a) != l(b), n(a) != n(b)), (a != b, a != b), "inequality of links {a:?} and {b:?}");
            let (o, m) = (l(a).cmp(&l(b)), n(a).cmp(&n(b)));
            same!((o == Ordering::Equal, m == Ordering::Equal), (a == b, a == b), "whether the links {a:?} and {b:?} are ordered as equals");
            same!((l(b).cmp(&l(a)), n(b).cmp(&n(a))), (o.reverse(), m.reverse()), "order of {a:?} and {b:?} the other way round");
            same!((l(a).partial_cmp(&l(b)), n(a).partial_cmp(&n(b))), (Some(o), Some(m)), "partial_cmp of {a:?} and {b:?}");
            if a == b {
                same!(hash(&l(a)), hash(&l(b)), "hash of equal links");
                same!(hash(&n(a)), hash(&n(b)), "hash of equal links");
            }
            // transitive with all third links
            for y in 0..48 {
                let d = f(y);
                if l(b).cmp(&l(d)) == o && o != Ordering::Equal {
                    same!(l(a).cmp(&l(d)), o, "order of the links {a:?} and {d:?}, with {b:?} between them");
                }
                if n(b).cmp(&n(d)) == m && m != Ordering::Equal {
                    same!(n(a).cmp(&n(d)), m, "order of the generation-less links {a:?} and {d:?}, with {b:?} between them");
                }
            }
            Ok(a == b)
        },
    );
}

fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// An element with a `Debug` form of several lines and a different `Display` form
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct El {
    #[allow(unused)]
    n: u32,
}

impl std::fmt::Display for El {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}{}>", if f.alternate() { "#" } else { "" }, self.n)
    }
}

/// Expected form of a link: both interlinks, then the element in the form that is asked for
struct Lk<'a, I>(Option<I>, Option<I>, &'a El);

impl<I: std::fmt::Debug> std::fmt::Debug for Lk<'_, I> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "({:?}, {:?}) ", self.0, self.1)?;
        std::fmt::Debug::fmt(self.2, f)
    }
}

impl<I: std::fmt::Debug> std::fmt::Display for Lk<'_, I> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "({:?}, {:?}) ", self.0, self.1)?;
        std::fmt::Display::fmt(self.2, f)
    }
}

/// Expected form of an arena
enum Form<K, V> {
    Map(Vec<(K, V)>),
    Set(Vec<V>),
}

impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for Form<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Form::Map(v) => f.debug_map().entries(v.iter().map(|x| (&x.0, &x.1))).finish(),
            Form::Set(v) => f.debug_set().entries(v.iter()).finish(),
        }
    }
}

fn both(x: &impl std::fmt::Debug) -> (String, String) {
    (format!("{x:?}"), format!("{x:#?}"))
}

/// Applies every history and compares both printed forms of what it gives
fn print<X: std::fmt::Debug>(
    c: &mut Ctx,
    name: &str,
    ops: u64,
    depth: u32,
    new: impl Fn() -> X + Sync,
    step: impl Fn(&mut X, u64, El) + Sync,
    len: impl Fn(&X) -> usize + Sync,
    want: impl Fn(&X) -> Result<(String, String), String> + Sync,
) {
    c.enumerate(
        name,
        ops.pow(depth),
        |x| format!("operations {:?}", (0..depth).map(|i| x / ops.pow(i) % ops).collect::<Vec<_>>()),
        |x| {
            let mut a = new();
            for i in 0..depth {
                step(&mut a, x / ops.pow(i) % ops, El { n: i });
            }
            let w = want(&a)?;
            same!(format!("{a:?}"), w.0, "printed form");
            same!(format!("{a:#?}"), w.1, "pretty printed form");
            Ok(len(&a) > 0)
        },
    );
}

fn printing(c: &mut Ctx) {
    let d = c.q(5, 6);
    macro_rules! arena {
        ($name:expr, $P:ident) => {
            print(
                c,
                $name,
                8,
                d,
                Arena::<$P, El>::new,
                |a, o, e| {
                    let (f, l) = (a.ptrs().next(), a.ptrs().last());
                    match o {
                        0 | 1 => drop(a.insert(e)),
                        2 => drop(f.map(|p| a.remove(p))),
                        3 => drop(l.map(|p| a.remove(p))),
                        4 => a.clear(),
                        5 => a.compress_and_shrink(),
                        6 => a.reserve(3),
                        _ => drop(f.map(|p| a.invalidate(p))),
                    }
                },
                |a| a.len(),
                |a| Ok(both(&Form::Map(a.ptrs().map(|p| (p, *a.get(p).unwrap())).collect()))),
            )
        };
    }
    arena!("arena gen", PD);
    arena!("arena nogen", PN);
    macro_rules! chain {
        ($name:expr, $C:ident, $P:ident, $f:expr) => {{
            print(
                c,
                $name,
                8,
                d,
                $C::<$P, El>::new,
                |a, o, e| {
                    let (f, l) = (a.ptrs().next(), a.ptrs().last());
                    match o {
                        0 => drop(a.insert_new(e)),
                        1 => drop(a.insert_new_cyclic(e)),
                        2 => drop(l.map(|p| a.insert((Some($f(p)), None), e).is_ok())),
                        3 => drop(f.map(|p| a.remove(p))),
                        4 => drop(f.map(|p| a.break_next(p))),
                        5 => drop(f.and_then(|p| l.map(|q| a.connect(p, q)))),
                        6 => drop(l.map(|p| a.insert((None, Some($f(p))), e).is_ok())),
                        _ => drop(f.map(|p| a.invalidate(p))),
                    }
                },
                |a| a.len(),
                |a| {
                    // the links one by one as well
                    for p in a.ptrs() {
                        let l = a.get_link(p).unwrap();
                        let k = Lk(l.prev(), l.next(), &l.t);
                        same!(format!("{l:?}"), format!("{k:?}"), "printed form of a link");
                        same!(format!("{l:#?}"), format!("{k:#?}"), "pretty printed form of a link");
                        same!(format!("{l}"), format!("{k}"), "displayed form of a link");
                        same!(format!("{l:#}"), format!("{k:#}"), "alternate displayed form of a link");
                    }
                    Ok(both(&Form::Map(
                        a.ptrs()
                            .map(|p| {
                                let l = a.get_link(p).unwrap();
                                (p, Lk(l.prev(), l.next(), a.get(p).unwrap()))
                            })
                            .collect(),
                    )))
                },
            )
        }};
    }
    chain!("chain gen", ChainArena, PD, |p| p);
    chain!("chain nogen", ChainArena, PN, |p| p);
    chain!("nogen-chain gen", ChainNoGenArena, PD, |p: PD| p.inx());
    let d = c.q(5, 6);
    print(
        c,
        "surject",
        8,
        d,
        SurjectArena::<PD, u32, El>::new,
        |a, o, e| {
            let (f, l) = (a.ptrs().next(), a.ptrs().last());
            match o {
                0 | 1 => drop(a.insert(o as u32, e)),
                2 => drop(f.map(|p| a.insert_key(p, 7))),
                3 => drop(f.and_then(|p| l.map(|q| a.union(p, q)))),
                4 => drop(f.map(|p| a.remove_key(p))),
                5 => a.compress_and_shrink(),
                6 => drop(l.map(|p| a.insert_key(p, 8))),
                _ => drop(f.map(|p| a.invalidate(p))),
            }
        },
        |a| a.len_keys(),
        |a| Ok(both(&Form::<(), _>::Set(a.ptrs().map(|p| (p, *a.get_key(p).unwrap(), *a.get_val(p).unwrap())).collect()))),
    );
    print(
        c,
        "ord",
        8,
        d,
        OrdArena::<PD, u32, El>::new,
        |a, o, e| {
            let (f, l) = (a.first(), a.last());
            match o {
                0..=2 => drop(a.insert(o as u32, e)),
                3 => drop(a.insert_nonhereditary(1, e)),
                4 => drop(f.map(|p| a.remove(p))),
                5 => drop(l.map(|p| a.remove(p))),
                6 => a.compress_and_shrink(),
                _ => drop(l.map(|p| a.invalidate(p))),
            }
        },
        |a| a.len(),
        |a| {
            let mut v = vec![];
            let mut at = a.first();
            while let Some(p) = at {
                v.push((p, (*a.get_key(p).unwrap(), *a.get_val(p).unwrap())));
                at = a.get_link(p).unwrap().next();
            }
            Ok(both(&Form::Map(v)))
        },
    );
}

fn main() {
    run(|c| {
        match c.prop.clone().as_str() {
            // iteration and draining
            "X01" => {
                vast::all(c);
                let g = wa::G_BULK | wa::G_SHRINK | wa::G_RESERVE | wa::G_DRAIN | wa::G_TRY;
                c.explore::<A<PD>>("arena gen", ac(g, c.q(7, 9)), deep());
                c.explore::<A<PN>>("arena nogen", ac(g, c.q(6, 8)), deep());
                let g = wc::G_LINKS | wc::G_CHAIN | wc::G_BULK | wc::G_RESERVE | wc::G_DRAIN;
                c.explore::<C<PD>>("chain gen", cc(g, c.q(5, 6)), deep());
                c.explore::<C<PN>>("chain nogen", cc(g, c.q(5, 6)), deep());
                c.explore::<N<PD>>("nogen-chain gen", cc(g, c.q(5, 6)), deep());
                let g = wo::G_REMOVE | wo::G_NON | wo::G_BULK | wo::G_RESERVE | wo::G_DRAIN;
                c.explore::<O<PD>>("ord gen", oc(g, c.q(5, 6)), deep());
                c.explore::<O<PN>>("ord nogen", oc(g, c.q(5, 6)), deep());
                let g = ws::G_REMOVE | ws::G_REMOVE_SET | ws::G_BULK | ws::G_RESERVE;
                c.explore::<S<PD>>("surject gen", sc(g, c.q(5, 6)), deep());
                c.explore::<S<PN>>("surject nogen", sc(g, 4), deep());
            }
            // advancers
            "X02" => {
                vast::all(c);
                let g = wa::G_BULK | wa::G_SHRINK | wa::G_REPL | wa::G_ADV;
                c.explore::<A<PD>>("arena gen, small", ac(g | wa::G_DRAIN | wa::G_RESERVE, 3), deep());
                c.explore::<A<PN>>("arena nogen", ac(g | wa::G_RESERVE, c.q(5, 6)), deep());
                c.explore::<A<PD>>("arena gen", ac(wa::G_ADV | wa::G_BULK | wa::G_SHRINK | wa::G_RESERVE, c.q(5, 6)), deep());
                let g = wc::G_LINKS | wc::G_INV | wc::G_BULK | wc::G_ADV;
                c.explore::<C<PD>>("chain gen", cc(g | wc::G_CHAIN | wc::G_RESERVE, 3), deep());
                c.explore::<C<PD>>("chain gen, cap 4", cc(wc::G_ADV | wc::G_CHAIN | wc::G_INV, 4), deep());
                c.explore::<N<PD>>("nogen-chain gen", cc(g | wc::G_CHAIN | wc::G_RESERVE, 3), deep());
                let g = wo::G_REMOVE | wo::G_INV | wo::G_NON | wo::G_BULK | wo::G_REPL | wo::G_ADV;
                c.explore::<O<PD>>("ord gen", wo::Cfg { inert: false, ..oc(g, 4) }, dedup_to(c.q(10, 12)));
                c.explore::<O<PN>>("ord nogen", wo::Cfg { inert: false, ..oc(wo::G_REMOVE | wo::G_ADV, 4) }, dedup_to(c.q(12, 16)));
                c.explore::<O<PD>>("ord gen, without equal keys", wo::Cfg { inert: false, ..oc(wo::G_REMOVE | wo::G_ADV, 8) }, dedup_to(c.q(9, 10)));
                let g = ws::G_REMOVE | ws::G_REMOVE_SET | ws::G_INV | ws::G_BULK | ws::G_SHRINK;
                c.explore::<S<PD>>("surject gen", sc(g | ws::G_RESERVE | ws::G_ADV, 3), deep());
                c.explore::<S<PD>>("surject gen, cap 4", sc(ws::G_REMOVE | ws::G_ADV, 4), deep());
                c.explore::<S<PD>>("surject sets", ws::Cfg { inert: false, ..sc(ws::G_REMOVE | ws::G_SADV, 4) }, dedup_to(c.q(12, 14)));
                let s: Vec<usize> = c.q(vec![9, 17, 33, 65], vec![9, 12, 16, 17, 20, 32, 33, 64, 65, 100, 129, 257]);
                large::<A<PD>>(c, "large arenas", |_| wa::Cfg { full: false, ..ac(wa::G_BULK | wa::G_SHRINK | wa::G_ADV, 1 << 20) }, s.clone(), 4, walk);
                large::<C<PD>>(c, "large chain arenas", |_| wc::Cfg { full: false, ..cc(wc::G_BULK | wc::G_ADV | wc::G_CHAIN | wc::G_INV, 1 << 20) }, s.clone(), 4, walk);
                let f = |_| wo::Cfg { inert: false, full: false, max_len: 1 << 20, ..oc(wo::G_REMOVE | wo::G_ADV, 1 << 20) };
                large::<O<PD>>(c, "large ordered arenas", f, s.clone(), 4, walk);
                let f = |_| ws::Cfg { inert: false, full: false, ..sc(ws::G_REMOVE | ws::G_REMOVE_SET | ws::G_BULK | ws::G_SHRINK | ws::G_ADV, 1 << 20) };
                large::<S<PD>>(c, "large surject arenas", f, s.clone(), 4, walk);
                let f = |_| ws::Cfg { inert: false, full: false, ..sc(ws::G_REMOVE | ws::G_SADV, 1 << 20) };
                large::<S<PD>>(c, "large surject sets", f, s, 4, walk);
            }
            "X12" => printing(c),
            // compression and recasting
            "X03" => {
                vast::all(c);
                let g = wa::G_BULK | wa::G_SHRINK | wa::G_RESERVE;
                c.explore::<A<PD>>("arena gen", ac(g, c.q(8, 10)), deep());
                c.explore::<A<PN>>("arena nogen", ac(g, c.q(6, 8)), deep());
                let g = wc::G_LINKS | wc::G_SHRINK | wc::G_RESERVE;
                c.explore::<C<PD>>("chain gen", cc(g, c.q(6, 7)), deep());
                c.explore::<C<PN>>("chain nogen", cc(g, c.q(5, 6)), deep());
                c.explore::<N<PD>>("nogen-chain gen", cc(g, c.q(5, 6)), deep());
                let g = wo::G_REMOVE | wo::G_NON | wo::G_SHRINK | wo::G_RESERVE;
                c.explore::<O<PD>>("ord gen", oc(g, 4), deep());
                c.explore::<O<PN>>("ord nogen", oc(g, 4), deep());
                c.explore::<O<PD>>("ord gen, larger", wo::Cfg { slots: true, inert: false, ..oc(wo::G_REMOVE | wo::G_SHRINK, 8) }, dedup_to(c.q(9, 11)));
                let g = ws::G_REMOVE | ws::G_REMOVE_SET | ws::G_SHRINK | ws::G_RESERVE;
                c.explore::<S<PD>>("surject gen", sc(g, 4), deep());
                c.explore::<S<PD>>("surject gen, larger", ws::Cfg { inert: false, ..sc(ws::G_REMOVE | ws::G_SHRINK, 8) }, dedup_to(c.q(9, 10)));
                c.explore::<S<PN>>("surject nogen", sc(g, 4), deep());
                recasting(c, 3);
                recasting(c, c.q(4, 5));
            }
            // cloning
            "X04" => {
                vast::all(c);
                let g = wa::G_BULK | wa::G_SHRINK | wa::G_RESERVE | wa::G_REPL | wa::G_SHADOW | wa::G_CLONE;
                c.explore::<A<PD>>("arena gen", ac(g, c.q(4, 5)), deep());
                c.explore::<A<PN>>("arena nogen", ac(g, c.q(4, 5)), deep());
                c.explore::<A<PD>>("arena gen, larger", ac(wa::G_BULK | wa::G_SHADOW, c.q(5, 6)), deep());
                let g = wc::G_LINKS | wc::G_RESERVE | wc::G_BULK | wc::G_SHRINK | wc::G_SHADOW | wc::G_CLONE;
                c.explore::<C<PD>>("chain gen", cc(g, 3), deep());
                c.explore::<C<PD>>("chain gen, cap 4", cc(wc::G_SHADOW | wc::G_CHAIN, 4), dedup_to(c.q(9, 12)));
                c.explore::<N<PD>>("nogen-chain gen", cc(g, 3), deep());
                c.explore::<N<PD>>("nogen-chain gen, cap 4", cc(wc::G_SHADOW | wc::G_CHAIN, 4), dedup_to(c.q(9, 12)));
                let g = wo::G_REMOVE | wo::G_NON | wo::G_BULK | wo::G_SHRINK | wo::G_SHADOW | wo::G_RESERVE;
                c.explore::<O<PD>>("ord gen", oc(g, c.q(3, 4)), deep());
                c.explore::<O<PN>>("ord nogen", oc(g, 3), deep());
                c.explore::<O<PD>>("ord gen, cap 4", oc(wo::G_REMOVE | wo::G_SHADOW, 4), dedup_to(c.q(11, 14)));
                let g = ws::G_REMOVE | ws::G_REMOVE_SET | ws::G_BULK | ws::G_SHRINK | ws::G_SHADOW | ws::G_RESERVE;
                c.explore::<S<PD>>("surject gen", sc(g, c.q(3, 3)), deep());
                c.explore::<S<PN>>("surject nogen", sc(g, 3), deep());
                c.explore::<S<PD>>("surject gen, cap 4", sc(ws::G_REMOVE | ws::G_SHADOW, 4), dedup_to(c.q(10, 12)));
                let s: Vec<usize> = c.q(vec![9, 17, 33, 65], vec![9, 12, 16, 17, 20, 32, 33, 64, 65, 100, 129, 257]);
                large::<A<PD>>(c, "large arenas", |_| wa::Cfg { full: false, ..ac(wa::G_BULK | wa::G_SHRINK | wa::G_CLONE | wa::G_SHADOW, 1 << 20) }, s.clone(), 4, fork);
                let g = |_| wc::Cfg { full: false, ..cc(wc::G_BULK | wc::G_CHAIN | wc::G_INV | wc::G_CLONE | wc::G_SHADOW, 1 << 20) };
                large::<C<PD>>(c, "large chain arenas", g, s.clone(), 4, fork);
                large::<N<PD>>(c, "large nogen-chain arenas", g, s.clone(), 4, fork);
                let f = |_| wo::Cfg { inert: false, full: false, max_len: 1 << 20, ..oc(wo::G_REMOVE | wo::G_SHRINK | wo::G_CLONE | wo::G_SHADOW, 1 << 20) };
                large::<O<PD>>(c, "large ordered arenas", f, s.clone(), 4, fork);
                let f = |_| ws::Cfg { inert: false, full: false, ..sc(ws::G_REMOVE | ws::G_REMOVE_SET | ws::G_BULK | ws::G_SHRINK | ws::G_CLONE | ws::G_SHADOW, 1 << 20) };
                large::<S<PD>>(c, "large surject arenas", f, s, 4, fork);
            }
            // equality and ordering
            "X05" => {
                vast::all(c);
                equality(c);
                let g = wa::G_REPL | wa::G_SHADOW;
                c.explore::<A<PD>>("arena gen", ac(g, 3), deep());
                c.explore::<C<PD>>("chain gen", cc(wc::G_LINKS | wc::G_SHADOW | wc::G_SWAP, 2), deep());
                c.explore::<N<PD>>("nogen-chain gen", cc(wc::G_LINKS | wc::G_SHADOW | wc::G_SWAP, 2), deep());
                c.explore::<O<PD>>("ord gen", oc(wo::G_REMOVE | wo::G_NON | wo::G_SHADOW | wo::G_REPL, 2), deep());
                c.explore::<S<PD>>("surject gen", sc(ws::G_REMOVE | ws::G_SHADOW | ws::G_SWAP | ws::G_INV, 2), deep());
            }
            // stale pointers
            "X11" => {
                access::chain::<PD>(c, "direct access, chain");
                access::nogen_chain::<PD>(c, "direct access, nogen-chain");
                access::ord::<PD>(c, "direct access, ord");
                let g = wc::G_INV | wc::G_REPL | wc::G_SWAP | wc::G_CHAIN | wc::G_LINKS | wc::G_BULK | wc::G_WITH;
                c.explore::<C<PD>>("chain gen", wc::Cfg { ages: true, ..cc(g, 4) }, deep());
                c.explore::<C<P88>>("chain 8 bit", wc::Cfg { ages: true, ..cc(g, 3) }, deep());
                c.explore::<N<PD>>("nogen-chain gen", wc::Cfg { ages: true, ..cc(g, 4) }, deep());
                c.explore::<C<PN>>("chain nogen", cc(g, 4), deep());
                c.explore::<N<PN>>("nogen-chain nogen", cc(g, 4), deep());
                let g = wo::G_INV | wo::G_REPL | wo::G_SWAP | wo::G_EQ | wo::G_NON | wo::G_REMOVE | wo::G_BULK | wo::G_DRAIN;
                c.explore::<O<PD>>("ord gen", wo::Cfg { ages: true, lin: true, ..oc(g | wo::G_LIN, c.q(3, 4)) }, deep());
                c.explore::<O<PD>>("ord gen, cap 4", wo::Cfg { ages: true, ..oc(g, 4) }, dedup_to(c.q(8, 12)));
                c.explore::<O<PN>>("ord nogen", wo::Cfg { lin: true, ..oc(g | wo::G_LIN, 4) }, deep());
                let g = ws::G_INV | ws::G_SWAP | ws::G_REMOVE | ws::G_REMOVE_SET | ws::G_BULK | ws::G_WITH;
                c.explore::<S<PD>>("surject gen", ws::Cfg { ages: true, ..sc(g, c.q(3, 4)) }, deep());
                c.explore::<S<PD>>("surject gen, cap 4", ws::Cfg { ages: true, ..sc(g, 4) }, dedup_to(c.q(9, 12)));
                c.explore::<S<PN>>("surject nogen", sc(g, 4), deep());
            }
            _ => (),
        }
    })
}
