//! Chain arenas.

use mc::w_chain::*;
use mc::*;
use triple_arena::utils::{ChainNoGenArena, LinkNoGen};
use triple_arena::{Arena, ChainArena, Link, Ptr};

type CW<P> = ChainWorld<P, ChainArena<P, T>>;
type NW<P> = ChainWorld<P, ChainNoGenArena<P, T>>;

fn cfg(groups: u32, max_cap: usize, ages: bool) -> Cfg {
    Cfg { groups, max_cap, ages, full: true }
}

const MOST: u32 =
    G_INV | G_REPL | G_SWAP | G_CHAIN | G_LINKS | G_BULK | G_SHRINK | G_RESERVE | G_DRAIN | G_CLONE | G_WITH;
const STRUCT: u32 = G_INV | G_CHAIN | G_LINKS | G_BULK | G_RESERVE;

fn big(n: usize) -> Cfg {
    Cfg { full: n <= 40, ..cfg(MOST, 1 << 20, false) }
}

/// Long chains: build, do one or two structural operations at chosen places, look at everything
fn family<P: Px, C: Ch<P>>(c: &mut Ctx, name: &str, kinds: &'static [K]) {
    let mut sizes: Vec<usize> = (1..=20).collect();
    sizes.extend([31, 32, 33, 63, 64, 65]);
    if c.thorough {
        sizes.extend(21..=30);
        sizes.extend([127, 128, 129, 255, 256, 257]);
    }
    let per = 2 * kinds.len() as u64 * 25;
    let dec = move |x: u64, sizes: &Vec<usize>| {
        let n = sizes[(x / per) as usize];
        let y = x % per;
        let places = [0, 1, n / 2, n.saturating_sub(2), n - 1];
        (n, y % 2 == 1, kinds[(y / 50) as usize], places[(y / 2 % 5) as usize], places[(y / 10 % 5) as usize])
    };
    let s2 = sizes.clone();
    c.enumerate(
        name,
        per * sizes.len() as u64,
        move |x| {
            let (n, cyc, k, i, j) = dec(x, &s2);
            format!("a {} chain of {n} links, then {k:?} at places {i} and {j}", if cyc { "cyclic" } else { "linear" })
        },
        move |x| {
            let (n, cyc, k, i, j) = dec(x, &sizes);
            if i >= n || j >= n {
                return Ok(false);
            }
            let cf = Cfg { groups: MOST, max_cap: 100_000, ages: false, full: n <= 20 };
            let mut done = false;
            play::<ChainWorld<P, C>>(&cf, |w| {
                let v = w.build(&cf, n, cyc)?;
                let mut ops = vec![];
                w.ops(&cf, &mut ops);
                let (a, b) = (v[i] as u16, v[j] as u16);
                let two = ops.iter().any(|o| *o == Op { k, a, b });
                let one = ops.iter().any(|o| *o == Op { k, a, b: 0 });
                let zero = ops.iter().any(|o| *o == Op { k, a: 0, b: 0 });
                let op = if two {
                    Op { k, a, b }
                } else if one && i == j {
                    Op { k, a, b: 0 }
                } else if zero && i == j {
                    Op { k, a: 0, b: 0 }
                } else {
                    return Ok(());
                };
                done = true;
                w.apply(&cf, op)?;
                w.walks()
            })?;
            Ok(done)
        },
    );
}

const FAM: &[K] = &[
    K::InsertCycWith, K::Insert, K::InsertWith, K::InsertStart, K::InsertEnd, K::Remove, K::RemoveChain, K::Invalidate, K::ReplUpd, K::Swap,
    K::Connect, K::BreakPrev, K::BreakNext, K::Exchange, K::Clear, K::ClearShrink, K::Compress, K::CompressWith,
    K::CompressRecaster, K::Clone, K::FromIter,
];

/// Judges one arena of `n` links with the given choices
fn links(n: usize, v: Vec<usize>) -> R<bool> {
    let mut a: Arena<PD, Link<PD, T>> = Arena::new();
    // one slot is used and freed first so that generations differ
    let free = a.insert(Link::new((None, None), T::new(0)));
    let tmp = a.insert(Link::new((None, None), T::new(0)));
    let _ = a.remove(tmp);
    let ps: Vec<PD> = (0..n).map(|i| a.insert(Link::new((None, None), T::new(i as u32 + 1)))).collect();
    let gen_before = a.generation();
    let _ = a.remove(free);
    let pick = |k: usize, me: usize| -> Option<PD> {
        match k {
            0 => None,
            k if k <= n => Some(ps[k - 1]),
            k if k == n + 1 => Some(PD::mk((ps[(me + 1) % n].raw().0, 1 + (gen_before.get() % 2)))),
            k if k == n + 2 => Some(free),
            _ => Some(PD::mk((a.capacity() + 3, 2))),
        }
    };
    let links: Vec<(Option<PD>, Option<PD>)> = (0..n).map(|i| (pick(v[2 * i], i), pick(v[2 * i + 1], i))).collect();
    for i in 0..n {
        let id = i as u32 + 1;
        *a.get_mut(ps[i]).unwrap() = Link::new(links[i], T::new(id));
    }
    let find = |p: PD| ps.iter().position(|q| *q == p);
    let ok = (0..n).all(|i| {
        let prev = match links[i].0 {
            None => true,
            Some(p) => find(p).map(|j| links[j].1 == Some(ps[i])).unwrap_or(false),
        };
        let next = match links[i].1 {
            None => true,
            Some(p) => find(p).map(|j| links[j].0 == Some(ps[i])).unwrap_or(false),
        };
        prev && next
    });
    let cap = a.capacity();
    let gen = a.generation();
    match ChainArena::from_arena(a) {
        Ok(mut r) => {
            ensure!(ok, "from_arena accepted inconsistent links {links:?}");
            same!(r.len(), n, "len() of the chain arena");
            same!(r.capacity(), cap, "capacity() of the chain arena");
            same!(r.generation(), gen, "generation() of the chain arena");
            for i in 0..n {
                let l = r.get_link(ps[i]).map(|l| (l.prev_next(), l.t.id()));
                same!(l, Some((links[i], i as u32 + 1)), "link {:?}", ps[i]);
            }
            ChainArena::_check_invariants(&r).map_err(|e| format!("internal invariants: {e}"))?;
            // it goes on working: insert everywhere, take everything apart
            for i in 0..n {
                if let Err(t) = r.insert((Some(ps[i]), None), T::new(100 + i as u32)) {
                    return Err(format!("insertion of {} after {:?} refused", t.id(), ps[i]));
                }
            }
            same!(r.len(), 2 * n, "len() after insertions");
            for i in 0..n {
                let l = r.remove(ps[i]).map(|l| l.t.id());
                same!(l, Some(i as u32 + 1), "removal of {:?}", ps[i]);
            }
            ChainArena::_check_invariants(&r).map_err(|e| format!("internal invariants: {e}"))?;
            Ok(true)
        }
        Err(_) => {
            ensure!(!ok, "from_arena refused consistent links {links:?}");
            Ok(n > 0)
        }
    }
}

/// Every arena of links with up to `n` live ones: each interlink is absent, any live link, a stale
/// pointer, a free slot or a slot that never existed
fn from_arena(c: &mut Ctx, name: &str, n: usize, wild: bool) {
    // choices per interlink: none, n live ones, and if `wild` stale generation, free slot, outside
    let ch = 1 + n as u64 + if wild { 3 } else { 0 };
    let count = ch.pow(2 * n as u32);
    let dec = move |mut x: u64| {
        let mut v = vec![];
        for _ in 0..2 * n {
            v.push((x % ch) as usize);
            x /= ch;
        }
        v
    };
    c.enumerate(
        name,
        count,
        move |x| format!("{n} links with interlink choices (prev, next per link; 0 none, 1.. the n-th, beyond: stale, free, outside) {:?}", dec(x)),
        move |x| links(n, dec(x)),
    );
}

/// Judges one arena of `n` links with the given choices
fn links_nogen(n: usize, v: Vec<usize>) -> R<bool> {
    let mut a: Arena<PD, LinkNoGen<PD, T>> = Arena::new();
    let free = a.insert(LinkNoGen::new((None, None), T::new(0)));
    let tmp = a.insert(LinkNoGen::new((None, None), T::new(0)));
    let _ = a.remove(tmp);
    let ps: Vec<PD> = (0..n).map(|i| a.insert(LinkNoGen::new((None, None), T::new(i as u32 + 1)))).collect();
    let _ = a.remove(free);
    let pick = |k: usize| match k {
        0 => None,
        k if k <= n => Some(ps[k - 1].inx()),
        k if k == n + 1 => Some(free.inx()),
        _ => Some(PD::mk((a.capacity() + 3, 2)).inx()),
    };
    let links: Vec<_> = (0..n).map(|i| (pick(v[2 * i]), pick(v[2 * i + 1]))).collect();
    for i in 0..n {
        *a.get_mut(ps[i]).unwrap() = LinkNoGen::new(links[i], T::new(i as u32 + 1));
    }
    let live = |k: usize| (1..=n).contains(&k).then(|| k - 1);
    let ok = (0..n).all(|i| {
        let prev = v[2 * i] == 0 || live(v[2 * i]).map(|j| v[2 * j + 1] == i + 1).unwrap_or(false);
        let next = v[2 * i + 1] == 0 || live(v[2 * i + 1]).map(|j| v[2 * j] == i + 1).unwrap_or(false);
        prev && next
    });
    let (cap, gen) = (a.capacity(), a.generation());
    match ChainNoGenArena::from_arena(a) {
        Ok(mut r) => {
            ensure!(ok, "from_arena accepted inconsistent links {links:?}");
            same!(r.len(), n, "len() of the chain arena");
            same!(r.capacity(), cap, "capacity() of the chain arena");
            same!(r.generation(), gen, "generation() of the chain arena");
            for i in 0..n {
                let l = r.get_link(ps[i]).map(|l| (l.prev_next(), l.t.id()));
                same!(l, Some((links[i], i as u32 + 1)), "link {:?}", ps[i]);
            }
            ChainNoGenArena::_check_invariants(&r).map_err(|e| format!("internal invariants: {e}"))?;
            for i in 0..n {
                if let Err(t) = r.insert((Some(ps[i].inx()), None), T::new(100 + i as u32)) {
                    return Err(format!("insertion of {} after {:?} refused", t.id(), ps[i]));
                }
            }
            same!(r.len(), 2 * n, "len() after insertions");
            for i in 0..n {
                let l = r.remove(ps[i]).map(|l| l.t.id());
                same!(l, Some(i as u32 + 1), "removal of {:?}", ps[i]);
            }
            ChainNoGenArena::_check_invariants(&r).map_err(|e| format!("internal invariants: {e}"))?;
            Ok(true)
        }
        Err(_) => {
            ensure!(!ok, "from_arena refused consistent links {links:?}");
            Ok(n > 0)
        }
    }
}

/// The same for interlinks without generations
fn from_arena_nogen(c: &mut Ctx, name: &str, n: usize, wild: bool) {
    // choices per interlink: none, n live ones, and if `wild` free slot, outside
    let ch = 1 + n as u64 + if wild { 2 } else { 0 };
    let count = ch.pow(2 * n as u32);
    let dec = move |mut x: u64| {
        let mut v = vec![];
        for _ in 0..2 * n {
            v.push((x % ch) as usize);
            x /= ch;
        }
        v
    };
    c.enumerate(
        name,
        count,
        move |x| format!("{n} links with interlink choices (prev, next per link; 0 none, 1.. the n-th, beyond: free, outside) {:?}", dec(x)),
        move |x| links_nogen(n, dec(x)),
    );
}

/// Long chains with one interlink that is changed
fn from_arena_large(c: &mut Ctx, max: usize) {
    let mut v = vec![];
    for n in (1..=max).chain([100, 257]) {
        for cyclic in [false, true] {
            for at in [0, 1, n / 2, n - 1].into_iter().filter(|i| *i < n) {
                for side in 0..2 {
                    // none, first, self, neighbours, last, stale, free, outside
                    for to in [0, 1, at + 1, at, at + 2, n, n + 1, n + 2, n + 3] {
                        v.push((n, cyclic, at, side, to));
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    for nogen in [false, true] {
        let w = v.clone();
        let v = v.clone();
        c.enumerate(
            &format!("long chains with one changed interlink{}", if nogen { ", without generations" } else { "" }),
            v.len() as u64,
            move |x| format!("(length, cyclic, link, side, changed to) {:?}", w[x as usize]),
            move |x| {
                let (n, cyclic, at, side, to) = v[x as usize];
                let mut w: Vec<usize> = vec![];
                for i in 0..n {
                    w.push(if i > 0 { i } else if cyclic { n } else { 0 });
                    w.push(if i + 1 < n { i + 2 } else if cyclic { 1 } else { 0 });
                }
                w[2 * at + side] = to;
                if nogen {
                    links_nogen(n, w)
                } else {
                    links(n, w)
                }
            },
        );
    }
}

fn main() {
    run(|c| {
        let t = c.thorough;
        match c.prop.clone().as_str() {
            "C01" => {
                huge::gen_chain(c, "huge chains");
                access::chain::<PD>(c, "direct access, gen");
                access::chain::<PN>(c, "direct access, nogen");
                c.explore::<CW<PD>>("chain gen, cap 3, all operations", cfg(MOST, 3, true), deep());
                c.explore::<CW<PN>>("chain nogen, cap 4, all operations", cfg(MOST, 4, true), deep());
                c.explore::<CW<PD>>("chain gen, cap 4, all operations", cfg(MOST, 4, true), deep());
                c.explore::<CW<PD>>("chain gen, cap 5, all operations", cfg(MOST, 5, false), deep());
                c.explore::<CW<PD>>("chain gen, cap 6, structure", cfg(G_INV | G_LINKS | G_RESERVE, 6, false), deep());
                c.explore::<CW<PD>>("chain gen, cap 4, every history", cfg(STRUCT | G_SHRINK, 4, false), all_to(if t { 6 } else { 5 }));
                family::<PD, ChainArena<PD, T>>(c, "chain gen, long chains", FAM);
                family::<PN, ChainArena<PN, T>>(c, "chain nogen, long chains", FAM);
                large::<CW<PD>>(c, "large chain arenas", big, sizes(c), 1, |w, _, _| w.walks());
                if t {
                    c.explore::<CW<PD>>("chain gen, cap 5, all operations, ages", cfg(MOST, 5, true), deep());
                    c.explore::<CW<PD>>("chain gen, cap 7, structure", cfg(G_INV | G_LINKS | G_RESERVE, 7, false), deep());
                }
            }
            "C02" => {
                huge::nogen_chain(c, "huge chains");
                access::nogen_chain::<PD>(c, "direct access, gen");
                access::nogen_chain::<PN>(c, "direct access, nogen");
                access::chain::<PD>(c, "direct access, generation-less links");
                c.explore::<NW<PD>>("nogen-chain gen, cap 3, all operations", cfg(MOST, 3, true), deep());
                c.explore::<NW<PN>>("nogen-chain nogen, cap 4, all operations", cfg(MOST, 4, true), deep());
                c.explore::<NW<PD>>("nogen-chain gen, cap 4, all operations", cfg(MOST, 4, true), deep());
                c.explore::<NW<PD>>("nogen-chain gen, cap 5, all operations", cfg(MOST, 5, false), deep());
                c.explore::<NW<PD>>("nogen-chain gen, cap 6, structure", cfg(G_INV | G_LINKS | G_RESERVE, 6, false), deep());
                c.explore::<NW<PD>>("nogen-chain gen, cap 4, every history", cfg(STRUCT | G_SHRINK, 4, false), all_to(if t { 6 } else { 5 }));
                family::<PD, ChainNoGenArena<PD, T>>(c, "nogen-chain gen, long chains", FAM);
                family::<PN, ChainNoGenArena<PN, T>>(c, "nogen-chain nogen, long chains", FAM);
                large::<NW<PD>>(c, "large nogen-chain arenas", big, sizes(c), 1, |w, _, _| w.walks());
                if t {
                    c.explore::<NW<PD>>("nogen-chain gen, cap 5, all operations, ages", cfg(MOST, 5, true), deep());
                    c.explore::<NW<PD>>("nogen-chain gen, cap 7, structure", cfg(G_INV | G_LINKS | G_RESERVE, 7, false), deep());
                }
            }
            "C03" => {
                let walk = G_INV | G_CHAIN | G_LINKS | G_BULK | G_SHRINK | G_CADV;
                huge::gen_chain(c, "huge chains");
                huge::nogen_chain(c, "huge nogen-chains");
                c.explore::<CW<PD>>("chain gen, cap 3, walk under changes", cfg(walk, 3, false), deep());
                c.explore::<NW<PD>>("nogen-chain gen, cap 3, walk under changes", cfg(walk, 3, false), deep());
                c.explore::<CW<PN>>("chain nogen, cap 4, walk under changes", cfg(walk, 4, false), if t { deep() } else { dedup_to(9) });
                c.explore::<CW<PD>>("chain gen, cap 4, walk under relinking", cfg(G_LINKS | G_CADV, 4, false), if t { deep() } else { dedup_to(9) });
                c.explore::<NW<PD>>("nogen-chain gen, cap 4, walk under relinking", cfg(G_LINKS | G_CADV, 4, false), if t { deep() } else { dedup_to(9) });
                c.explore::<CW<PD>>("chain gen, cap 6, chains", cfg(G_CHAIN | G_LINKS | G_RESERVE, 6, false), deep());
                c.explore::<NW<PD>>("nogen-chain gen, cap 6, chains", cfg(G_CHAIN | G_LINKS | G_RESERVE, 6, false), deep());
                const F: &[K] = &[K::RemoveChain, K::Connect, K::BreakPrev, K::BreakNext, K::Exchange, K::Insert, K::Remove];
                family::<PD, ChainArena<PD, T>>(c, "chain gen, long chains", F);
                family::<PD, ChainNoGenArena<PD, T>>(c, "nogen-chain gen, long chains", F);
                if t {
                    c.explore::<CW<PD>>("chain gen, cap 4, walk under changes", cfg(walk, 4, false), deep());
                    c.explore::<NW<PD>>("nogen-chain gen, cap 4, walk under changes", cfg(walk, 4, false), deep());
                    c.explore::<NW<PN>>("nogen-chain nogen, cap 5, walk under changes", cfg(walk, 5, false), deep());
                    c.explore::<CW<PD>>("chain gen, cap 7, chains", cfg(G_CHAIN | G_LINKS | G_RESERVE, 7, false), deep());
                }
            }
            "C04" => {
                for n in 0..=3 {
                    from_arena(c, &format!("all arenas of {n} links, wild interlinks"), n, true);
                }
                from_arena(c, "all arenas of 4 links, wild interlinks", 4, true);
                for n in 0..=4 {
                    from_arena_nogen(c, &format!("all arenas of {n} links without generations, wild interlinks"), n, true);
                }
                if t {
                    from_arena(c, "all arenas of 5 links", 5, false);
                    from_arena_nogen(c, "all arenas of 5 links without generations", 5, false);
                }
                from_arena_large(c, c.q(24, 70));
            }
            _ => (),
        }
    })
}
