//! What all kinds of arenas have in common, for arenas of many elements with holes: iterators, advancers, compression,
//! cloning and equality, each read out completely and compared with a list of what was inserted.

use crate::engine::*;
use crate::px::PD;
use crate::{ensure, same};
use std::collections::BTreeMap;
use triple_arena::utils::ChainNoGenArena;
use triple_arena::{Advancer, Arena, ChainArena, OrdArena, Ptr, Recast, SurjectArena};

type M = BTreeMap<PD, usize>;

fn sizes(c: &Ctx) -> Vec<usize> {
    c.q(vec![130, 257, 258, 1025, 65_537], vec![100, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4097, 65_535, 65_536, 65_537, 131_073])
}

fn hole(n: usize, i: usize) -> bool {
    i % 5 == 2 || i == 0 || i == n - 1 || (n / 2..n / 2 + 70).contains(&i)
}

fn sorted<X: Ord>(i: impl Iterator<Item = X>) -> Vec<X> {
    let mut v: Vec<X> = i.collect();
    v.sort();
    v
}

/// The element is the number under which it was inserted
trait Kind: Clone + PartialEq + Sized {
    const NAME: &'static str;
    fn build(n: usize) -> R<(Self, M)>;
    fn all(&self) -> Vec<(PD, usize)>;
    /// Every other way of iterating
    fn others(&mut self, want: &M) -> R;
    fn steps(&self) -> Vec<PD>;
    /// Only for kinds that can be drained
    fn drained(&mut self, at_most: usize) -> Option<Vec<(PD, usize)>>;
    fn owned(self) -> Option<Vec<(PD, usize)>>;
    fn find(&self, p: PD) -> Option<usize>;
    fn take(&mut self, p: PD) -> Option<usize>;
    fn change(&mut self, p: PD) -> R;
    fn compress(&mut self) -> Arena<PD, PD>;
    fn sound(&self) -> R;
}

/// What all of them have under the same names
macro_rules! common {
    ($T:ident, $pv:expr, $own:expr) => {
        fn all(&self) -> Vec<(PD, usize)> {
            self.iter().map($pv).collect()
        }
        fn steps(&self) -> Vec<PD> {
            let mut adv = self.advancer();
            let mut v = vec![];
            while let Some(p) = adv.advance(self) {
                v.push(p);
            }
            v
        }
        fn drained(&mut self, at_most: usize) -> Option<Vec<(PD, usize)>> {
            Some(self.drain().take(at_most).map($own).collect())
        }
        fn owned(self) -> Option<Vec<(PD, usize)>> {
            Some(self.into_iter().map($own).collect())
        }
        fn compress(&mut self) -> Arena<PD, PD> {
            self.compress_and_shrink_recaster()
        }
        fn sound(&self) -> R {
            $T::_check_invariants(self).map_err(|e| e.to_string())
        }
    };
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct E(usize);

impl Kind for Arena<PD, E> {
    const NAME: &'static str = "arena";
    fn build(n: usize) -> R<(Self, M)> {
        let mut a = Arena::new();
        let mut m = M::new();
        for i in 0..n {
            m.insert(a.insert(E(i)), i);
        }
        a.remove_by(|_, i| hole(n, i.0));
        m.retain(|_, i| !hole(n, *i));
        Ok((a, m))
    }
    common!(Arena, |(p, e)| (p, e.0), |(p, e)| (p, e.0));
    fn others(&mut self, want: &M) -> R {
        let vals = sorted(want.values().copied());
        ensure!(sorted(self.ptrs()) == sorted(want.keys().copied()), "ptrs()");
        ensure!(sorted(self.vals().map(|e| e.0)) == vals, "vals()");
        ensure!(sorted(self.vals_mut().map(|e| e.0)) == vals, "vals_mut()");
        ensure!(sorted(self.iter_mut().map(|(p, e)| (p, e.0))) == sorted(want.iter().map(|x| (*x.0, *x.1))), "iter_mut()");
        Ok(())
    }
    fn find(&self, p: PD) -> Option<usize> {
        self.get(p).map(|e| e.0)
    }
    fn take(&mut self, p: PD) -> Option<usize> {
        self.remove(p).map(|e| e.0)
    }
    fn change(&mut self, p: PD) -> R {
        self.get_mut(p).ok_or("an element was lost")?.0 += 1;
        Ok(())
    }
}

macro_rules! chains {
    ($T:ident, $name:literal, $p:expr) => {
        impl Kind for $T<PD, E> {
            const NAME: &'static str = $name;
            fn build(n: usize) -> R<(Self, M)> {
                let mut a = $T::new();
                let mut m = M::new();
                let mut last: Option<PD> = None;
                for i in 0..n {
                    let p = match last.filter(|_| i % 100 != 0) {
                        Some(q) => a.insert((Some($p(q)), None), E(i)).map_err(|_| "insertion refused")?,
                        None if i % 200 == 0 => a.insert_new_cyclic(E(i)),
                        None => a.insert_new(E(i)),
                    };
                    m.insert(p, i);
                    last = Some(p);
                }
                for (p, i) in m.clone() {
                    if hole(n, i) {
                        ensure!(a.remove(p).is_some(), "{p:?} was not removed");
                        m.remove(&p);
                    }
                }
                Ok((a, m))
            }
            common!($T, |(p, l)| (p, l.t.0), |(p, l)| (p, l.t.0));
            fn others(&mut self, want: &M) -> R {
                let vals = sorted(want.values().copied());
                ensure!(sorted(self.ptrs()) == sorted(want.keys().copied()), "ptrs()");
                ensure!(sorted(self.vals().map(|l| l.t.0)) == vals, "vals()");
                ensure!(sorted(self.vals_mut().map(|l| l.t.0)) == vals, "vals_mut()");
                ensure!(sorted(self.iter_mut().map(|(p, l)| (p, l.t.0))) == sorted(want.iter().map(|x| (*x.0, *x.1))), "iter_mut()");
                Ok(())
            }
            fn find(&self, p: PD) -> Option<usize> {
                self.get(p).map(|e| e.0)
            }
            fn take(&mut self, p: PD) -> Option<usize> {
                self.remove(p).map(|l| l.t.0)
            }
            fn change(&mut self, p: PD) -> R {
                self.get_mut(p).ok_or("an element was lost")?.0 += 1;
                Ok(())
            }
        }
    };
}
chains!(ChainArena, "chain", |p: PD| p);
chains!(ChainNoGenArena, "nogen-chain", |p: PD| p.inx());

impl Kind for OrdArena<PD, E, E> {
    const NAME: &'static str = "ord";
    fn build(n: usize) -> R<(Self, M)> {
        let mut a = OrdArena::new();
        let mut m = M::new();
        // from both ends
        for j in 0..n {
            let i = if j % 2 == 0 { j / 2 } else { n - 1 - j / 2 };
            m.insert(a.insert(E(i), E(i)).0, i);
        }
        for (p, i) in m.clone() {
            if hole(n, i) {
                ensure!(a.remove(p).is_some(), "{p:?} was not removed");
                m.remove(&p);
            }
        }
        Ok((a, m))
    }
    common!(OrdArena, |(p, k, _)| (p, k.0), |(p, k, _)| (p, k.0));
    fn others(&mut self, want: &M) -> R {
        let vals = sorted(want.values().copied());
        let mut order: Vec<(usize, PD)> = want.iter().map(|x| (*x.1, *x.0)).collect();
        order.sort();
        ensure!(self.ptrs().eq(order.iter().map(|x| x.1)), "ptrs()");
        ensure!(self.keys().map(|e| e.0).eq(vals.iter().copied()), "keys()");
        ensure!(self.vals().map(|e| e.0).eq(vals.iter().copied()), "vals()");
        ensure!(self.vals_mut().map(|e| e.0).eq(vals.iter().copied()), "vals_mut()");
        ensure!(self.iter().map(|(p, k, _)| (k.0, p)).eq(order.iter().copied()), "iter() out of order");
        Ok(())
    }
    fn find(&self, p: PD) -> Option<usize> {
        self.get_key(p).map(|e| e.0)
    }
    fn take(&mut self, p: PD) -> Option<usize> {
        self.remove(p).map(|x| x.0 .0)
    }
    fn change(&mut self, p: PD) -> R {
        self.get_val_mut(p).ok_or("an element was lost")?.0 += 1;
        Ok(())
    }
}

impl Kind for SurjectArena<PD, E, E> {
    const NAME: &'static str = "surject";
    fn build(n: usize) -> R<(Self, M)> {
        let mut a = SurjectArena::new();
        let mut m = M::new();
        let mut last: Option<PD> = None;
        for i in 0..n {
            // small sets and large ones
            let p = match last.filter(|_| i % 3 != 0 || i > n / 2 && i % 1000 != 0) {
                Some(q) => a.insert_key(q, E(i)).map_err(|_| "insertion refused")?,
                None => a.insert(E(i), E(i)),
            };
            m.insert(p, i);
            last = Some(p);
        }
        for (p, i) in m.clone() {
            if hole(n, i) {
                ensure!(a.remove_key(p).is_some(), "{p:?} was not removed");
                m.remove(&p);
            }
        }
        Ok((a, m))
    }
    fn all(&self) -> Vec<(PD, usize)> {
        self.iter().map(|(p, k, _)| (p, k.0)).collect()
    }
    fn others(&mut self, want: &M) -> R {
        let keys = sorted(want.values().copied());
        ensure!(sorted(self.ptrs()) == sorted(want.keys().copied()), "ptrs()");
        ensure!(sorted(self.keys().map(|e| e.0)) == keys, "keys()");
        ensure!(sorted(self.keys_mut().map(|e| e.0)) == keys, "keys_mut()");
        let mut vals = sorted(want.keys().map(|p| self.get_val(*p).map(|v| v.0)));
        vals.dedup();
        ensure!(sorted(self.vals().map(|v| Some(v.0))) == vals, "vals()");
        ensure!(sorted(self.vals_mut().map(|v| Some(v.0))) == vals, "vals_mut()");
        same!(self.len_vals(), vals.len(), "number of values");
        Ok(())
    }
    fn steps(&self) -> Vec<PD> {
        let mut adv = self.advancer();
        let mut v = vec![];
        while let Some(p) = adv.advance(self) {
            v.push(p);
        }
        v
    }
    fn drained(&mut self, _: usize) -> Option<Vec<(PD, usize)>> {
        None
    }
    fn owned(self) -> Option<Vec<(PD, usize)>> {
        None
    }
    fn find(&self, p: PD) -> Option<usize> {
        self.get_key(p).map(|e| e.0)
    }
    fn take(&mut self, p: PD) -> Option<usize> {
        self.remove_key(p).map(|x| x.0 .0)
    }
    fn change(&mut self, p: PD) -> R {
        self.get_key_mut(p).ok_or("an element was lost")?.0 += 1;
        Ok(())
    }
    fn compress(&mut self) -> Arena<PD, PD> {
        self.compress_and_shrink_recaster()
    }
    fn sound(&self) -> R {
        SurjectArena::_check_invariants(self).map_err(|e| e.to_string())
    }
}

fn is<A: Kind>(a: &A, m: &M, what: &str) -> R {
    let mut all = a.all();
    all.sort();
    ensure!(all.iter().copied().eq(m.iter().map(|x| (*x.0, *x.1))), "{what}: iteration gave {} elements, {} expected", all.len(), m.len());
    for (p, i) in m {
        same!(a.find(*p), Some(*i), "{what}: element at {p:?}");
    }
    a.sound().map_err(|e| format!("{what}: {e}"))
}

fn one<A: Kind>(prop: &str, n: usize) -> R {
    let (mut a, m) = A::build(n)?;
    is(&a, &m, "building")?;
    let list: Vec<(PD, usize)> = m.iter().map(|x| (*x.0, *x.1)).collect();
    match prop {
        "X01" => {
            a.others(&m).map_err(|e| format!("{e} gave other elements"))?;
            for k in [0, 1, list.len() / 2, list.len() - 1, list.len(), usize::MAX] {
                let mut b = a.clone();
                if let Some(mut got) = b.drained(k) {
                    same!(got.len(), k.min(list.len()), "elements drained");
                    got.sort();
                    got.dedup();
                    same!(got.len(), k.min(list.len()), "different elements drained");
                    ensure!(got.iter().all(|x| m.get(&x.0) == Some(&x.1)), "another element was drained");
                    is(&b, &M::new(), "draining")?;
                    for (p, _) in &list {
                        same!(b.find(*p), None, "element at {p:?} after draining");
                    }
                }
            }
            if let Some(mut got) = a.owned() {
                got.sort();
                ensure!(got == list, "into_iter() gave other elements");
            }
        }
        "X02" => {
            let got = sorted(a.steps().into_iter());
            ensure!(got.iter().eq(m.keys()), "an advancer met {} elements, {} expected", got.len(), m.len());
        }
        "X03" => {
            let mut map = a.compress();
            same!(map.len(), m.len(), "pointers in the returned map");
            let mut new = M::new();
            for (p, i) in &list {
                let mut q = *p;
                q.recast(&map).map_err(|p| format!("{p:?} is not in the returned map"))?;
                ensure!(new.insert(q, *i).is_none(), "{q:?} is given twice by the returned map");
                same!(map.remove(*p), Some(q), "target of {p:?}");
            }
            is(&a, &new, "compression")?;
            ensure!(list.iter().all(|(p, _)| a.find(*p).is_none()), "an old pointer is valid after compression");
        }
        "X04" => {
            for mut b in [a.clone(), A::build(7)?.0, A::build(2 * n)?.0, A::build(n)?.0] {
                b.clone_from(&a);
                is(&b, &m, "cloning")?;
                let mut left = m.clone();
                for (p, i) in list.iter().step_by(3) {
                    same!(b.take(*p), Some(*i), "removal from the clone");
                    left.remove(p);
                }
                is(&b, &left, "removal from the clone")?;
                is(&a, &m, "removal from the clone, original")?;
            }
        }
        _ => {
            let b = a.clone();
            ensure!(a == b, "a clone is not equal");
            let l = list.len();
            for k in [0, 1, l / 3, l / 2, l - 2, l - 1] {
                let mut b = a.clone();
                b.change(list[k].0)?;
                ensure!(a != b && b != a, "equal in spite of a change at {:?}", list[k].0);
                let mut b = a.clone();
                b.take(list[k].0);
                ensure!(a != b && b != a, "equal in spite of a removal at {:?}", list[k].0);
            }
        }
    }
    Ok(())
}

fn kind<A: Kind + 'static>(c: &mut Ctx) {
    let prop = c.prop.clone();
    let s = sizes(c);
    let s2 = s.clone();
    c.enumerate(
        &format!("many elements, {}", A::NAME),
        s.len() as u64,
        move |x| format!("{} elements", s2[x as usize]),
        move |x| {
            one::<A>(&prop, s[x as usize])?;
            Ok(true)
        },
    );
}

pub fn all(c: &mut Ctx) {
    kind::<Arena<PD, E>>(c);
    kind::<ChainArena<PD, E>>(c);
    kind::<ChainNoGenArena<PD, E>>(c);
    kind::<OrdArena<PD, E, E>>(c);
    kind::<SurjectArena<PD, E, E>>(c);
}
