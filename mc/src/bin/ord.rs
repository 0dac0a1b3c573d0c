//! Ordered arena.

use mc::w_ord::*;
use mc::*;
use triple_arena::{OrdArena, Ptr};

const MOST: u32 = G_INV
    | G_REPL
    | G_SWAP
    | G_EQ
    | G_NON
    | G_LIN
    | G_MANUAL
    | G_BULK
    | G_SHRINK
    | G_RESERVE
    | G_DRAIN
    | G_CLONE
    | G_REMOVE;
/// everything that changes the tree
const TREE: u32 = G_REMOVE | G_SHRINK | G_MANUAL | G_BULK | G_DRAIN;

/// states told apart by slots
fn small(groups: u32, max_cap: usize) -> Cfg {
    Cfg { groups, max_cap, max_len: max_cap, slots: true, ages: false, inert: true, lin: true, full: true }
}
/// states told apart by the tree only
fn tree(groups: u32, max_len: usize) -> Cfg {
    Cfg { groups, max_cap: 4 * max_len, max_len, slots: false, ages: false, inert: false, lin: false, full: false }
}

fn big(n: usize) -> Cfg {
    let g = if n <= 20 { MOST } else { MOST & !G_LIN };
    Cfg { max_cap: 1 << 20, max_len: 1 << 20, inert: n <= 40, lin: false, full: n <= 40, ..small(g, 0) }
}

/// An order in which to insert or remove `n` things
fn pattern(k: u64, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match k {
        0 => (),
        1 => v.reverse(),
        // from both ends
        2 => {
            v = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect();
        }
        // from the middle outwards
        3 => {
            v.sort_by_key(|x| (2 * x + 1).abs_diff(n));
        }
        // large strides
        k => {
            let step = [3, 5, 7, 11, 13, 17][(k - 4) as usize % 6];
            v.sort_by_key(|x| (x % step, *x));
            if k >= 10 {
                v.reverse();
            }
        }
    }
    v
}
const PATTERNS: u64 = 16;

/// Many entries: insertion in one pattern, removal of part of them in another, bounds checked throughout
fn family(c: &mut Ctx, name: &str, sizes: Vec<usize>) {
    let per = PATTERNS * PATTERNS * 4;
    let dec = move |x: u64, s: &[usize]| (s[(x / per) as usize], x % PATTERNS, x / PATTERNS % PATTERNS, x / PATTERNS / PATTERNS % 4);
    let s2 = sizes.clone();
    c.enumerate(
        name,
        per * sizes.len() as u64,
        move |x| {
            let (n, i, r, m) = dec(x, &s2);
            format!("{n} entries inserted in pattern {i}, removed in pattern {r}, variant {m}")
        },
        move |x| {
            let (n, i, r, m) = dec(x, &sizes);
            let mut a: OrdArena<PD, u32, u32> = OrdArena::new();
            let mut at: Vec<Option<PD>> = vec![None; n];
            let mut order = vec![];
            let count = std::cell::Cell::new(0u64);
            let search = |a: &OrdArena<PD, u32, u32>, k: u32| {
                count.set(0);
                a.find_with(|_, kk, _| {
                    count.set(count.get() + 1);
                    k.cmp(kk)
                })
            };
            let check = |a: &OrdArena<PD, u32, u32>, at: &[Option<PD>], lim: u64| -> R {
                for (k, p) in at.iter().enumerate() {
                    let got = search(a, k as u32);
                    same!(got, *p, "search for {k}");
                    ensure!(count.get() <= lim, "search for {k} among {} entries took {} steps, at most {lim} are permitted", a.len(), count.get());
                }
                let want: Vec<PD> = at.iter().flatten().cloned().collect();
                let got: Vec<PD> = a.ptrs().collect();
                same!(got, want, "iteration order");
                OrdArena::_check_invariants(a).map_err(|e| format!("internal invariants: {e}"))
            };
            for (t, k) in pattern(i, n).into_iter().enumerate() {
                let kk = k as u32;
                let p = match m {
                    0 => a.insert(kk, kk).0,
                    1 => a.insert_nonhereditary(kk, kk),
                    2 => {
                        let start = order.last().and_then(|k: &usize| at[*k]).unwrap_or(PD::invalid());
                        a.insert_linear(start, n, kk, kk).0
                    }
                    _ => match at[..k].iter().rev().flatten().next() {
                        // manual: directly after the next smaller one, or before the first
                        Some(p) => a.insert_inx_manual_unwrap(p.inx(), std::cmp::Ordering::Greater, kk, kk).0,
                        None => match a.first() {
                            Some(p) => a.insert_inx_manual_unwrap(p.inx(), std::cmp::Ordering::Less, kk, kk).0,
                            None => a.insert_empty(kk, kk).ok_or("insert_empty refused by an empty arena")?,
                        },
                    },
                };
                at[k] = Some(p);
                order.push(k);
                if t.is_power_of_two() || t + 1 == n {
                    check(&a, &at, max_height_insert_only(a.len()))?;
                }
            }
            let rem = pattern(r, n);
            for (t, k) in rem.iter().enumerate() {
                let p = at[*k].take().unwrap();
                same!(a.remove(p), Some((*k as u32, *k as u32)), "remove");
                if t % (n / 6 + 1) == 0 || a.len() < 6 {
                    check(&a, &at, max_height(a.len()))?;
                }
                if t == n / 2 && m == 0 {
                    a.compress_and_shrink();
                    let ps: Vec<PD> = a.ptrs().collect();
                    for (slot, p) in at.iter_mut().filter(|x| x.is_some()).zip(ps) {
                        *slot = Some(p);
                    }
                    check(&a, &at, ideal_height(a.len()) + 1)?;
                }
                if t == n / 2 && m == 1 {
                    break;
                }
            }
            if m == 1 {
                // put them back
                for k in rem.iter() {
                    if at[*k].is_none() {
                        at[*k] = Some(a.insert_nonhereditary(*k as u32, 0));
                    }
                }
                check(&a, &at, max_height(a.len()))?;
            }
            Ok(true)
        },
    );
}

/// Compression and balance for every size
fn compressed(c: &mut Ctx, name: &str, max: u64) {
    c.enumerate(
        name,
        max + 1,
        |n| format!("{n} entries compressed"),
        |n| {
            let n = n as usize;
            let mut a: OrdArena<PD, u32, u32> = OrdArena::new();
            for k in 0..n as u32 {
                let _ = a.insert(k * 2, k);
            }
            a.compress_and_shrink();
            OrdArena::_check_invariants(&a).map_err(|e| format!("internal invariants: {e}"))?;
            for k in 0..2 * n as u32 {
                let mut steps = 0;
                let got = a.find_with(|_, kk, _| {
                    steps += 1;
                    k.cmp(kk)
                });
                same!(got.is_some(), k % 2 == 0, "search for {k}");
                ensure!(steps <= ideal_height(n) + 1, "a search among {n} compressed entries took {steps} steps");
            }
            // all the ways to continue by one entry
            for k in 0..=n as u32 {
                let mut b = a.clone();
                if k > 0 {
                    let _ = b.insert(2 * k - 1, 0);
                    OrdArena::_check_invariants(&b).map_err(|e| format!("after insertion: internal invariants: {e}"))?;
                    same!(b.len(), n + 1, "length");
                    let p = b.find_key(&(2 * k - 2)).ok_or("an entry was lost")?;
                    let _ = b.remove(p);
                    OrdArena::_check_invariants(&b).map_err(|e| format!("after removal: internal invariants: {e}"))?;
                }
            }
            Ok(n > 0)
        },
    );
}

thread_local! {
    static SEEN: std::cell::RefCell<Vec<u32>> = const { std::cell::RefCell::new(vec![]) };
}

/// A key which records the other keys it is compared with
#[derive(Clone, Debug)]
struct Rec(u32);
impl Rec {
    fn note(&self, o: &Rec) {
        SEEN.with(|s| s.borrow_mut().extend([self.0, o.0]));
    }
}
impl PartialEq for Rec {
    fn eq(&self, o: &Rec) -> bool {
        self.note(o);
        self.0 == o.0
    }
}
impl Eq for Rec {}
impl PartialOrd for Rec {
    fn partial_cmp(&self, o: &Rec) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Rec {
    fn cmp(&self, o: &Rec) -> std::cmp::Ordering {
        self.note(o);
        self.0.cmp(&o.0)
    }
}

/// Linear searches and insertions from every start for every key with every small limit: a target which is in reach is
/// found by looking at nothing but the entries on the way to it
fn nearby(c: &mut Ctx, name: &str, sizes: Vec<usize>, ends: bool) {
    let per = PATTERNS;
    let s2 = sizes.clone();
    c.enumerate(
        name,
        per * sizes.len() as u64,
        move |x| format!("{} entries inserted in pattern {}", s2[(x / per) as usize], x % per),
        move |x| {
            let n = sizes[(x / per) as usize];
            let mut a: OrdArena<PD, Rec, ()> = OrdArena::new();
            let mut at = vec![PD::invalid(); n];
            for k in pattern(x % per, n) {
                at[k] = a.insert(Rec(2 * k as u32 + 1), ()).0;
            }
            // the distinct keys of entries looked at
            let seen = || {
                SEEN.with(|s| {
                    let mut s = std::mem::take(&mut *s.borrow_mut());
                    s.sort();
                    s.dedup();
                    s.retain(|x| x % 2 == 1);
                    s
                })
            };
            let lim = max_height_insert_only(n) as usize;
            let starts: Vec<usize> = if ends { vec![0, n / 2, n - 1] } else { (0..n).collect() };
            for start in starts {
                for k in 0..=2 * n as u32 {
                    // entries from the start to the one where the place of `k` is known
                    let sk = 2 * start as u32 + 1;
                    let place = k as usize / 2; // number of smaller keys
                    let (lo, hi) = if k % 2 == 1 {
                        (start.min(place), start.max(place))
                    } else if k < sk {
                        (place.saturating_sub(1), start)
                    } else {
                        (start, place.min(n - 1))
                    };
                    let need = hi - lo + 1;
                    for num in [0, 1, 2, 3, 4, 5, 6, need, n, 256, 1 << 16, 1 << 32, usize::MAX] {
                        let q = Rec(k);
                        seen();
                        let r = a.find_similar_key_linear(at[start], num, &q);
                        let s0 = seen();
                        let f = a.find_key_linear(at[start], num, &q);
                        let s1 = seen();
                        same!(f, (k % 2 == 1).then(|| at[place]), "find_key_linear for {k} from {sk}, limit {num}");
                        let (p, o) = r.ok_or("nothing is similar")?;
                        let sim = match o {
                            std::cmp::Ordering::Equal => k % 2 == 1 && p == at[place],
                            std::cmp::Ordering::Less => k % 2 == 0 && place < n && p == at[place],
                            std::cmp::Ordering::Greater => k % 2 == 0 && place > 0 && p == at[place - 1],
                        };
                        ensure!(sim, "find_similar_key_linear for {k} from {sk}, limit {num}: {p:?} {o:?}");
                        for (what, s) in [("find_similar_key_linear", &s0), ("find_key_linear", &s1)] {
                            let direct = need <= num && (k % 2 == 1 || what == "find_similar_key_linear");
                            if direct {
                                let ok = s.iter().all(|x| (lo..=hi).contains(&(*x as usize / 2)));
                                ensure!(ok, "{what} for {k} from {sk} with limit {num} looked at {s:?}");
                            }
                            ensure!(
                                s.len() <= num.saturating_add(lim),
                                "{what} for {k} from {sk} with limit {num} looked at {} of {n} entries",
                                s.len()
                            );
                        }
                    }
                }
            }
            Ok(true)
        },
    );
}

fn main() {
    run(|c| {
        let t = c.thorough;
        match c.prop.clone().as_str() {
            "O01" => {
                huge::ord(c);
                access::ord::<PD>(c, "direct access, gen");
                access::ord::<PN>(c, "direct access, nogen");
                c.explore::<OrdWorld<PD>>("ord gen, cap 2, all operations", small(MOST, 2), deep());
                c.explore::<OrdWorld<PD>>("ord gen, cap 3, all operations", small(MOST, 3), deep());
                c.explore::<OrdWorld<PD>>("ord gen, cap 4, all operations", small(MOST, 4), deep());
                c.explore::<OrdWorld<PN>>("ord no gen, cap 4, all operations", small(MOST, 4), deep());
                c.explore::<OrdWorld<P88>>("ord 8 bit, cap 3, all operations", small(MOST, 3), deep());
                if !t {
                    let g = G_REMOVE | G_INV | G_NON | G_SHRINK | G_BULK;
                    c.explore::<OrdWorld<PD>>("ord gen, cap 6, structure", Cfg { lin: false, ..small(g, 6) }, dedup_to(12));
                } else {
                    let g = G_REMOVE | G_INV | G_NON | G_SHRINK | G_BULK;
                    c.explore::<OrdWorld<PD>>("ord gen, cap 5, all operations", small(MOST, 5), deep());
                    c.explore::<OrdWorld<PD>>("ord gen, cap 6, structure", Cfg { lin: false, ..small(g, 6) }, deep());
                    c.explore::<OrdWorld<PD>>("ord gen, no dedup", small(MOST, 4), all_to(4));
                }
                let f = |n| Cfg { full: true, ..tree(TREE, n) };
                c.explore::<OrdWorld<PD>>("trees to 9", f(9), deep());
                c.explore::<OrdWorld<PD>>("trees to 13", tree(TREE, c.q(13, 15)), deep());
                c.explore::<OrdWorld<PD>>("trees with equal keys", tree(TREE | G_NON | G_EQ, c.q(8, 9)), deep());
                c.explore::<OrdWorld<PN>>("trees, no gen", tree(TREE, c.q(10, 12)), deep());
                large::<OrdWorld<PD>>(c, "large ordered arenas", big, sizes(c), 1, |_, _, _| Ok(()));
            }
            "O02" => {
                let g = G_EQ | G_NON | G_LIN | G_MANUAL | G_REMOVE | G_SHRINK;
                c.explore::<OrdWorld<PD>>("searches, cap 4", small(g, 4), deep());
                if t {
                    c.explore::<OrdWorld<PD>>("searches, cap 5", small(g | G_RESERVE, 5), dedup_to(9));
                }
                c.explore::<OrdWorld<PN>>("searches, no gen", small(g, 4), deep());
                let f = |g, n| Cfg { lin: true, ..tree(g, n) };
                c.explore::<OrdWorld<PD>>("searches, equal keys", f(G_REMOVE | G_SHRINK | G_EQ | G_NON | G_LIN, c.q(6, 8)), deep());
                c.explore::<OrdWorld<PD>>("searches, trees", f(G_REMOVE | G_SHRINK, c.q(11, 14)), deep());
                family(c, "search families", c.q((1..=24).collect(), (1..=70).collect()));
            }
            "O03" => {
                c.explore::<OrdWorld<PD>>("trees", tree(G_REMOVE, c.q(16, 19)), deep());
                c.explore::<OrdWorld<PD>>("trees, insertion only", tree(0, c.q(20, 24)), deep());
                c.explore::<OrdWorld<PD>>("trees with compression", tree(TREE, c.q(14, 16)), deep());
                c.explore::<OrdWorld<PD>>("trees with manual insertion", tree(G_REMOVE | G_MANUAL | G_MANUAL_ANY, c.q(13, 15)), deep());
                c.explore::<OrdWorld<PD>>("trees with equal keys", tree(TREE | G_NON | G_EQ, c.q(8, 9)), deep());
                family(c, "large families", c.q(vec![31, 32, 33, 63, 64, 100, 127, 128, 200], (60..=300).step_by(6).chain([512, 1000]).collect()));
                compressed(c, "compression of every size", c.q(130, 400));
                nearby(c, "linear searches", c.q((1..=16).chain([24, 33]).collect(), (1..=64).collect()), false);
                nearby(c, "long linear searches", c.q(vec![257, 300], vec![255, 256, 257, 258, 300, 513, 1000]), true);
            }
            "O04" => {
                let s = |g, n| Cfg { lin: true, full: true, ..tree(g, n) };
                c.explore::<OrdWorld<PD>>("inconsistent answers", s(G_REMOVE | G_SCRIPT | G_LIN | G_SHRINK, c.q(7, 8)), deep());
                c.explore::<OrdWorld<PD>>("inconsistent answers, slots", small(G_REMOVE | G_SCRIPT | G_BULK | G_DRAIN | G_SHRINK | G_INV | G_REPL | G_CLONE, 4), deep());
                c.explore::<OrdWorld<PN>>("inconsistent answers, no gen", s(G_REMOVE | G_SCRIPT | G_LIN, c.q(5, 7)), deep());
                c.explore::<OrdWorld<PD>>("misplaced manual insertion", s(G_REMOVE | G_MANUAL | G_MANUAL_ANY | G_SHRINK, c.q(9, 11)), deep());
                c.explore::<OrdWorld<PD>>("misplaced manual insertion, slots", small(G_REMOVE | G_MANUAL | G_MANUAL_ANY | G_SHRINK | G_INV, c.q(4, 5)), deep());
                if t {
                    c.explore::<OrdWorld<PD>>("inconsistent answers, no dedup", s(G_REMOVE | G_SCRIPT, 6), all_to(5));
                }
            }
            _ => (),
        }
    })
}
