//! Arenas with more elements than a 16 bit number can count, each built by a fixed history and read out completely
//! after every stage.

use crate::engine::*;
use crate::px::PD;
use crate::{ensure, same};
use std::collections::HashMap;
use triple_arena::utils::ChainNoGenArena;
use triple_arena::{Advancer, Arena, ChainArena, OrdArena, Ptr, SurjectArena};

fn sizes(c: &Ctx) -> Vec<usize> {
    c.q(vec![1000, 65_534, 65_535, 65_536, 65_537, 70_000], vec![1000, 32_767, 32_768, 32_769, 65_534, 65_535, 65_536, 65_537, 70_000, 131_073, 200_000])
}

fn each(c: &mut Ctx, name: &str, f: impl Fn(usize) -> R + Sync + Send + 'static) {
    let s = sizes(c);
    let s2 = s.clone();
    c.enumerate(
        name,
        s.len() as u64,
        move |x| format!("{} elements", s2[x as usize]),
        move |x| {
            f(s[x as usize])?;
            Ok(true)
        },
    );
}

pub fn arena(c: &mut Ctx) {
    each(c, "huge arenas", |n| {
        let mut a: Arena<PD, usize> = Arena::new();
        let mut m: HashMap<PD, usize> = HashMap::new();
        let check = |a: &Arena<PD, usize>, m: &HashMap<PD, usize>, what: &str| -> R {
            same!(a.len(), m.len(), "{what}: length");
            let mut k = 0;
            for (p, t) in a.iter() {
                same!(m.get(&p), Some(t), "{what}: iteration gave {p:?}");
                k += 1;
            }
            same!(k, m.len(), "{what}: number of elements by iteration");
            for (p, t) in m.iter() {
                same!(a.get(*p), Some(t), "{what}: get({p:?})");
            }
            Arena::_check_invariants(a).map_err(|e| format!("{what}: {e}"))
        };
        for i in 0..n {
            ensure!(m.insert(a.insert(i), i).is_none(), "a pointer was given out twice");
        }
        check(&a, &m, "insertion")?;
        let ps: Vec<PD> = a.ptrs().collect();
        for (i, p) in ps.iter().enumerate() {
            if i % 3 == 0 || i > n - 9 {
                same!(a.remove(*p), m.remove(p), "remove({p:?})");
            }
        }
        check(&a, &m, "removal")?;
        for i in 0..n / 4 {
            ensure!(m.insert(a.insert_with(|_| n + i), n + i).is_none(), "a pointer was given out twice");
        }
        check(&a, &m, "insertion after removal")?;
        a.remove_by(|_, t| *t % 5 == 0);
        m.retain(|_, t| *t % 5 != 0);
        check(&a, &m, "remove_by")?;
        let b = a.clone();
        ensure!(a == b, "a clone is not equal");
        check(&b, &m, "clone")?;
        let mut b: Arena<PD, usize> = Arena::new();
        b.insert(1);
        b.clone_from(&a);
        check(&b, &m, "clone_from")?;
        b.clone_from_with(&a, |_, t| *t);
        check(&b, &m, "clone_from_with")?;
        let r = b.compress_and_shrink_recaster();
        same!(b.capacity(), m.len(), "capacity after compression");
        let m2: HashMap<PD, usize> = m.iter().map(|(p, t)| (r[*p], *t)).collect();
        check(&b, &m2, "compression")?;
        let got: HashMap<PD, usize> = b.drain().collect();
        ensure!(got == m2, "drain gave other elements");
        check(&b, &HashMap::new(), "drain")?;
        a.clear();
        check(&a, &HashMap::new(), "clear")?;
        let m: HashMap<PD, usize> = (0..n).map(|i| (a.insert(i), i)).collect();
        check(&a, &m, "insertion after clearing")
    });
}

macro_rules! chain {
    ($f:ident, $A:ident, $p:expr) => {
        pub fn $f(c: &mut Ctx, name: &str) {
            each(c, name, |n| {
                let mut a: $A<PD, usize> = $A::new();
                // a chain and a cycle
                let mut v = [vec![], vec![]];
                for i in 0..n {
                    let k = (i % 3 == 0) as usize;
                    let p = match v[k].last() {
                        Some((p, _)) => a.insert((Some($p(*p)), None), i).map_err(|_| "insertion refused")?,
                        None if k == 0 => a.insert_new(i),
                        None => a.insert_new_cyclic(i),
                    };
                    v[k].push((p, i));
                }
                let check = |a: &$A<PD, usize>, v: &[Vec<(PD, usize)>; 2], what: &str| -> R {
                    same!(a.len(), v[0].len() + v[1].len(), "{what}: length");
                    $A::_check_invariants(a).map_err(|e| format!("{what}: {e}"))?;
                    for k in 0..2 {
                        let l = v[k].len();
                        for (i, (p, t)) in v[k].iter().enumerate() {
                            let link = a.get_link(*p).ok_or("a link was lost")?;
                            same!(link.t, *t, "{what}: element");
                            let prev = (i > 0 || k == 1).then(|| v[k][(i + l - 1) % l].0);
                            let next = (i + 1 < l || k == 1).then(|| v[k][(i + 1) % l].0);
                            same!(link.prev_next(), (prev.map($p), next.map($p)), "{what}: interlinks of {p:?}");
                        }
                        for i in [0, l / 2, l - 1] {
                            let mut adv = a.advancer_chain($p(v[k][i].0));
                            let mut got = vec![];
                            while let Some(p) = adv.advance(a) {
                                got.push(p);
                            }
                            let mut want: Vec<PD> = v[k].iter().map(|x| x.0).collect();
                            got.sort();
                            want.sort();
                            ensure!(got == want, "{what}: traversal of a chain of {l} links met {} links", got.len());
                        }
                    }
                    Ok(())
                };
                check(&a, &v, "insertion")?;
                for k in 0..2 {
                    let old = std::mem::take(&mut v[k]);
                    let l = old.len();
                    for (i, (p, t)) in old.into_iter().enumerate() {
                        if i == 0 || i + 1 == l || i % 4 == 2 {
                            same!(a.remove(p).map(|l| l.t), Some(t), "remove");
                        } else if i % 4 == 1 {
                            let q = a.invalidate(p).ok_or("invalidate refused")?;
                            v[k].push((q, t));
                        } else {
                            v[k].push((p, t));
                        }
                    }
                }
                check(&a, &v, "removal")?;
                let b = a.clone();
                ensure!(a == b, "a clone is not equal");
                check(&b, &v, "clone")?;
                let mut map = HashMap::new();
                a.compress_and_shrink_with(|p, _, q| {
                    map.insert(p, q);
                });
                same!(map.len(), v[0].len() + v[1].len(), "pointers mapped by compression");
                for x in v.iter_mut().flatten() {
                    x.0 = map[&x.0];
                }
                check(&a, &v, "compression")?;
                for k in 0..2 {
                    let l = v[k].len();
                    same!(a.remove_chain(v[k][l / 3].0), Some(l), "remove_chain");
                }
                ensure!(a.is_empty(), "links are left over");
                Ok(())
            });
        }
    };
}
chain!(gen_chain, ChainArena, |p: PD| p);
chain!(nogen_chain, ChainNoGenArena, |p: PD| p.inx());

pub fn ord(c: &mut Ctx) {
    each(c, "huge ordered arenas", |n| {
        let mut a: OrdArena<PD, usize, usize> = OrdArena::new();
        let mut m: Vec<Option<PD>> = vec![None; n];
        let check = |a: &OrdArena<PD, usize, usize>, m: &[Option<PD>], what: &str| -> R {
            let want: Vec<(PD, usize)> = m.iter().enumerate().filter_map(|(k, p)| p.map(|p| (p, k))).collect();
            same!(a.len(), want.len(), "{what}: length");
            let got: Vec<(PD, usize)> = a.iter().map(|(p, k, _)| (p, *k)).collect();
            ensure!(got == want, "{what}: iteration gave other entries");
            same!(a.first(), want.first().map(|x| x.0), "{what}: first");
            same!(a.last(), want.last().map(|x| x.0), "{what}: last");
            for (k, p) in m.iter().enumerate() {
                same!(a.find_key(&k), *p, "{what}: find_key({k})");
            }
            OrdArena::_check_invariants(a).map_err(|e| format!("{what}: {e}"))
        };
        for i in 0..n {
            // some order in which all keys occur
            let k = (0..).map(|j| (i * 40_503 + j) % n).find(|k| m[*k].is_none()).unwrap();
            let (p, old) = a.insert(k, i);
            ensure!(old.is_none(), "a key was taken for another");
            m[k] = Some(p);
        }
        check(&a, &m, "insertion")?;
        for k in 0..n {
            if k % 3 == 1 || k < 5 || k > n / 2 && k % 2 == 0 {
                let p = m[k].take().unwrap();
                same!(a.remove(p).map(|x| x.0), Some(k), "remove");
            }
        }
        check(&a, &m, "removal")?;
        let b = a.clone();
        ensure!(a == b, "a clone is not equal");
        check(&b, &m, "clone")?;
        let mut map = HashMap::new();
        a.compress_and_shrink_with(|p, _, _, q| {
            map.insert(p, q);
        });
        for p in m.iter_mut().flatten() {
            *p = *map.get(p).ok_or("an entry was not mapped by compression")?;
        }
        check(&a, &m, "compression")?;
        for k in (0..n).rev() {
            if m[k].is_none() {
                m[k] = Some(a.insert_nonhereditary(k, 0));
            }
        }
        check(&a, &m, "insertion after compression")
    });
}

pub fn surject(c: &mut Ctx) {
    each(c, "huge surject arenas", |n| {
        let mut a: SurjectArena<PD, usize, usize> = SurjectArena::new();
        // two large sets and singletons
        let mut v: Vec<Vec<(PD, usize)>> = vec![vec![], vec![]];
        for i in 0..n {
            let k = i % 2;
            let p = match v[k].last() {
                Some((p, _)) => a.insert_key(*p, i).map_err(|_| "insertion refused")?,
                None => a.insert(i, k),
            };
            v[k].push((p, i));
        }
        for i in 0..n {
            v.push(vec![(a.insert(n + i, 2 + i), n + i)]);
        }
        let check = |a: &SurjectArena<PD, usize, usize>, v: &[Vec<(PD, usize)>], what: &str| -> R {
            same!(a.len_keys(), v.iter().map(|x| x.len()).sum::<usize>(), "{what}: number of keys");
            same!(a.len_vals(), v.iter().filter(|x| !x.is_empty()).count(), "{what}: number of values");
            SurjectArena::_check_invariants(a).map_err(|e| format!("{what}: {e}"))?;
            for (k, s) in v.iter().enumerate() {
                for (p, t) in s {
                    same!(a.get(*p), Some((t, &k)), "{what}: get({p:?})");
                    same!(a.len_key_set(*p).map(|x| x.get()), Some(s.len()), "{what}: size of the set of {p:?}");
                }
                if let Some((p, _)) = s.first() {
                    let mut adv = a.advancer_surject(*p);
                    let mut got = vec![];
                    while let Some(p) = adv.advance(a) {
                        got.push(p);
                    }
                    let mut want: Vec<PD> = s.iter().map(|x| x.0).collect();
                    got.sort();
                    want.sort();
                    ensure!(got == want, "{what}: traversal of a set of {} keys met {} keys", s.len(), got.len());
                }
            }
            Ok(())
        };
        check(&a, &v, "insertion")?;
        // the two large sets, which have 65536 keys in total for some n
        let r = a.union(v[0][n / 5].0, v[1][n / 3].0);
        let (gone, p) = r.ok_or("union refused")?;
        let keep = 0;
        same!(gone, 1, "value removed by union");
        same!(a.get_val(p), Some(&keep), "value kept by union");
        let mut s = std::mem::take(&mut v[1]);
        v[keep].append(&mut s);
        check(&a, &v, "union")?;
        // singletons into it, then out of it
        for i in 0..60.min(n) {
            let mut s = std::mem::take(&mut v[2 + i]);
            let r = a.union(s[0].0, v[keep][i].0).ok_or("union refused")?;
            same!(r.0, 2 + i, "value removed by union with a single key");
            v[keep].append(&mut s);
        }
        check(&a, &v, "unions with single keys")?;
        for i in 0..n / 2 {
            let (p, t) = v[keep].swap_remove(i);
            same!(a.remove_key(p), Some((t, None)), "remove_key");
        }
        check(&a, &v, "removal of keys")?;
        let b = a.clone();
        ensure!(a == b, "a clone is not equal");
        check(&b, &v, "clone")?;
        let mut map = HashMap::new();
        a.compress_and_shrink_with(|p, _, _, q| {
            map.insert(p, q);
        });
        for x in v.iter_mut().flatten() {
            x.0 = *map.get(&x.0).ok_or("a key was not mapped by compression")?;
        }
        check(&a, &v, "compression")?;
        same!(a.remove(v[keep][3].0), Some(keep), "remove of the large set");
        v[keep].clear();
        check(&a, &v, "removal of a set")
    });
}
