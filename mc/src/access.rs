//! Direct access by index operators and by bare index, with every pointer ever issued.

use crate::*;
use triple_arena::utils::{ChainNoGenArena, LinkNoGen};
use triple_arena::{Arena, ChainArena, Link, OrdArena};

/// Stand-ins with which this compiles, and the comparisons hold trivially, when the crate does not
/// have the undocumented function of that name (its own functions take precedence)
mod absent {
    #![allow(dead_code)]
    use super::*;

    fn full<P: Px>(mut ptrs: impl Iterator<Item = P>, i: P::Inx) -> Option<P> {
        ptrs.find(|p| p.inx() == i)
    }

    pub trait Elements<P: Px, T> {
        fn get_no_gen(&self, i: P::Inx) -> Option<(P::Gen, &T)>;
        fn get_no_gen_mut(&mut self, i: P::Inx) -> Option<(P::Gen, &mut T)>;
        fn get_inx_unwrap(&self, i: P::Inx) -> &T;
        fn get_inx_mut_unwrap(&mut self, i: P::Inx) -> &mut T;
    }

    impl<P: Px, T> Elements<P, T> for Arena<P, T> {
        fn get_no_gen(&self, i: P::Inx) -> Option<(P::Gen, &T)> {
            let p = full(self.ptrs(), i)?;
            Some((p.generation(), self.get(p)?))
        }
        fn get_no_gen_mut(&mut self, i: P::Inx) -> Option<(P::Gen, &mut T)> {
            let p = full(self.ptrs(), i)?;
            Some((p.generation(), self.get_mut(p)?))
        }
        fn get_inx_unwrap(&self, i: P::Inx) -> &T {
            self.get(full(self.ptrs(), i).unwrap()).unwrap()
        }
        fn get_inx_mut_unwrap(&mut self, i: P::Inx) -> &mut T {
            let p = full(self.ptrs(), i).unwrap();
            self.get_mut(p).unwrap()
        }
    }

    macro_rules! links {
        ($name:ident, $A:ident, $L:ident) => {
            pub trait $name<P: Px, T> {
                fn get_no_gen(&self, i: P::Inx) -> Option<(P::Gen, &$L<P, T>)>;
                fn get_no_gen_mut(&mut self, i: P::Inx) -> Option<(P::Gen, $L<P, &mut T>)>;
                fn get_inx_unwrap(&self, i: P::Inx) -> &$L<P, T>;
                fn get_inx_mut_unwrap(&mut self, i: P::Inx) -> $L<P, &mut T>;
                fn get_inx_mut_unwrap_t(&mut self, i: P::Inx) -> &mut T;
            }

            impl<P: Px, T> $name<P, T> for $A<P, T> {
                fn get_no_gen(&self, i: P::Inx) -> Option<(P::Gen, &$L<P, T>)> {
                    let p = full(self.ptrs(), i)?;
                    Some((p.generation(), self.get_link(p)?))
                }
                fn get_no_gen_mut(&mut self, i: P::Inx) -> Option<(P::Gen, $L<P, &mut T>)> {
                    let p = full(self.ptrs(), i)?;
                    Some((p.generation(), self.get_link_mut(p)?))
                }
                fn get_inx_unwrap(&self, i: P::Inx) -> &$L<P, T> {
                    self.get_link(full(self.ptrs(), i).unwrap()).unwrap()
                }
                fn get_inx_mut_unwrap(&mut self, i: P::Inx) -> $L<P, &mut T> {
                    let p = full(self.ptrs(), i).unwrap();
                    self.get_link_mut(p).unwrap()
                }
                fn get_inx_mut_unwrap_t(&mut self, i: P::Inx) -> &mut T {
                    let p = full(self.ptrs(), i).unwrap();
                    self.get_mut(p).unwrap()
                }
            }
        };
    }
    links!(Links, ChainArena, Link);
    links!(LinksNoGen, ChainNoGenArena, LinkNoGen);

    pub trait FromLink<P: Px, T> {
        fn from_link(l: Link<P, T>) -> LinkNoGen<P, T>;
    }

    impl<P: Px, T> FromLink<P, T> for LinkNoGen<P, T> {
        fn from_link(l: Link<P, T>) -> LinkNoGen<P, T> {
            LinkNoGen::new((l.prev().map(|p| p.inx()), l.next().map(|p| p.inx())), l.t)
        }
    }
}
#[allow(unused_imports)]
use absent::*;

/// All histories of `depth` steps; `step` records the pointers that are issued, `look` judges
fn each<P: Px, X: Default>(
    c: &mut Ctx,
    name: &str,
    depth: u32,
    step: impl Fn(&mut X, &mut Vec<P>, u64, u32) + Sync,
    look: impl Fn(&mut X, &[P]) -> R<bool> + Sync,
) {
    const OPS: u64 = 8;
    c.enumerate(
        name,
        OPS.pow(depth),
        |x| format!("operations {:?}", (0..depth).map(|i| x / OPS.pow(i) % OPS).collect::<Vec<_>>()),
        |x| {
            let mut a = X::default();
            let mut issued = vec![];
            for i in 0..depth {
                step(&mut a, &mut issued, x / OPS.pow(i) % OPS, i);
            }
            issued.push(P::invalid());
            look(&mut a, &issued)
        },
    );
}

/// Index operators accept what `contains` accepts and panic otherwise
macro_rules! index {
    ($a:expr, $p:expr, $id:expr) => {{
        let p = $p;
        match $id {
            Some(id) => {
                same!($a[p], id, "index {p:?}");
                same!($a[&p], id, "index &{p:?}");
                let m = &mut $a[p];
                same!(*m, id, "mutable index {p:?}");
                *m = id + 1000;
                same!($a[p], id + 1000, "index {p:?} after writing");
                $a[&p] = id;
                same!($a[p], id, "index {p:?} after writing back");
            }
            None => {
                ensure!(panics(|| $a[p]).is_err(), "index with the invalid pointer {p:?} did not panic");
                ensure!(panics(|| $a[p] = 1).is_err(), "mutable index with the invalid pointer {p:?} did not panic");
            }
        }
    }};
}

/// What is at a bare index, going by the pointers
fn at<P: Px>(live: &[(P, u32)], p: P) -> Option<(u64, u32)> {
    live.iter().find(|x| x.0.inx() == p.inx()).map(|x| (P::rawgen(x.0.generation()), x.1))
}

pub fn arena<P: Px>(c: &mut Ctx, name: &str) {
    each::<P, Arena<P, u32>>(
        c,
        name,
        c.q(5, 6),
        |a, v, o, n| {
            let (f, l) = (a.ptrs().next(), a.ptrs().last());
            match o {
                0 | 1 => v.push(a.insert(n)),
                2 => drop(f.map(|p| a.remove(p))),
                3 => drop(l.map(|p| a.remove(p))),
                4 => a.clear(),
                5 => v.extend(f.and_then(|p| a.invalidate(p))),
                6 => v.extend(l.and_then(|p| a.replace_and_update_gen(p, n).ok()).map(|x| x.1)),
                _ => {
                    a.compress_and_shrink();
                    v.extend(a.ptrs());
                }
            }
        },
        |a, v| {
            let live: Vec<(P, u32)> = a.iter().map(|(p, t)| (p, *t)).collect();
            for p in v {
                let id = live.iter().find(|x| x.0 == *p).map(|x| x.1);
                index!(a, *p, id);
                let want = at(&live, *p);
                let i = p.inx();
                same!(a.get_no_gen(i).map(|x| (P::rawgen(x.0), *x.1)), want, "get_no_gen({i:?})");
                same!(a.get_no_gen_mut(i).map(|x| (P::rawgen(x.0), *x.1)), want, "get_no_gen_mut({i:?})");
                if let Some((_, id)) = want {
                    same!(*a.get_inx_unwrap(i), id, "get_inx_unwrap({i:?})");
                    same!(*a.get_inx_mut_unwrap(i), id, "get_inx_mut_unwrap({i:?})");
                }
            }
            same!(a.iter().map(|(p, t)| (p, *t)).collect::<Vec<_>>(), live, "contents after looking");
            Ok(!live.is_empty())
        },
    );
}

macro_rules! chain {
    ($f:ident, $A:ident, $to:expr, $more:expr) => {
        pub fn $f<P: Px>(c: &mut Ctx, name: &str) {
            each::<P, $A<P, u32>>(
                c,
                name,
                c.q(5, 6),
                |a, v, o, n| {
                    let (f, l) = (a.ptrs().next(), a.ptrs().last());
                    match o {
                        0 => v.push(a.insert_new(n)),
                        1 => v.push(a.insert_new_cyclic(n)),
                        2 => v.extend(l.and_then(|p| a.insert((Some($to(p)), None), n).ok())),
                        3 => v.extend(l.and_then(|p| a.insert((None, Some($to(p))), n).ok())),
                        4 => drop(f.map(|p| a.remove(p))),
                        5 => v.extend(f.and_then(|p| a.invalidate(p))),
                        6 => drop(f.and_then(|p| l.map(|q| a.connect(p, q)))),
                        _ => drop(l.map(|p| a.remove(p))),
                    }
                },
                |a, v| {
                    let live: Vec<(P, u32)> = a.iter().map(|(p, l)| (p, l.t)).collect();
                    for p in v {
                        let id = live.iter().find(|x| x.0 == *p).map(|x| x.1);
                        index!(a, *p, id);
                        let i = p.inx();
                        let want = live.iter().find(|x| x.0.inx() == i).map(|x| {
                            let l = a.get_link(x.0).unwrap();
                            (P::rawgen(x.0.generation()), l.prev(), l.next(), x.1)
                        });
                        same!(a.get_no_gen(i).map(|x| (P::rawgen(x.0), x.1.prev(), x.1.next(), x.1.t)), want, "get_no_gen({i:?})");
                        same!(
                            a.get_no_gen_mut(i).map(|x| (P::rawgen(x.0), x.1.prev(), x.1.next(), *x.1.t)),
                            want,
                            "get_no_gen_mut({i:?})"
                        );
                        if let Some((_, prev, next, id)) = want {
                            let l = a.get_inx_unwrap(i);
                            same!((l.prev(), l.next(), l.t), (prev, next, id), "get_inx_unwrap({i:?})");
                            same!(l.prev_next(), (prev, next), "prev_next of the link at {i:?}");
                            let l = a.get_inx_mut_unwrap(i);
                            same!((l.prev(), l.next(), *l.t), (prev, next, id), "get_inx_mut_unwrap({i:?})");
                            same!(*a.get_inx_mut_unwrap_t(i), id, "get_inx_mut_unwrap_t({i:?})");
                        }
                    }
                    $more(a)?;
                    same!(a.iter().map(|(p, l)| (p, l.t)).collect::<Vec<_>>(), live, "contents after looking");
                    Ok(!live.is_empty())
                },
            );
        }
    };
}

fn converted<P: Px>(a: &ChainArena<P, u32>) -> R {
    for (p, l) in a {
        let n = LinkNoGen::from_link(*l);
        let inx = |p: P| p.inx();
        same!(
            (n.prev(), n.next(), n.t),
            (l.prev().map(inx), l.next().map(inx), l.t),
            "generation-less link made from the link at {p:?}"
        );
    }
    Ok(())
}

chain!(chain, ChainArena, |p: P| p, |a: &ChainArena<P, u32>| converted(a));
chain!(nogen_chain, ChainNoGenArena, |p: P| p.inx(), |_: &ChainNoGenArena<P, u32>| R::Ok(()));

pub fn ord<P: Px>(c: &mut Ctx, name: &str) {
    each::<P, OrdArena<P, u32, u32>>(
        c,
        name,
        c.q(5, 6),
        |a, v, o, n| {
            let (f, l) = (a.first(), a.last());
            match o {
                0..=2 => v.push(a.insert(o as u32, n).0),
                3 => v.push(a.insert_nonhereditary(1, n)),
                4 => drop(f.map(|p| a.remove(p))),
                5 => drop(l.map(|p| a.remove(p))),
                6 => v.extend(f.and_then(|p| a.invalidate(p))),
                _ => v.extend(l.and_then(|p| a.invalidate(p))),
            }
        },
        |a, v| {
            let live: Vec<(P, u32)> = a.iter().map(|(p, _, v)| (p, *v)).collect();
            for p in v {
                let id = live.iter().find(|x| x.0 == *p).map(|x| x.1);
                index!(a, *p, id);
                let i = p.inx();
                let n = live.iter().position(|x| x.0.inx() == i);
                let want = n.map(|n| {
                    (
                        P::rawgen(live[n].0.generation()),
                        n.checked_sub(1).map(|n| live[n].0.inx()),
                        live.get(n + 1).map(|x| x.0.inx()),
                        *a.get_key(live[n].0).unwrap(),
                        live[n].1,
                    )
                });
                same!(
                    a.get_link_no_gen(i).map(|x| (P::rawgen(x.0), x.1.prev(), x.1.next(), *x.1.t.0, *x.1.t.1)),
                    want,
                    "get_link_no_gen({i:?})"
                );
            }
            same!(a.iter().map(|(p, _, v)| (p, *v)).collect::<Vec<_>>(), live, "contents after looking");
            Ok(!live.is_empty())
        },
    );
}
