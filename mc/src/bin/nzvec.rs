//! The one-based backing vector.

use mc::*;
use std::fmt;
use std::marker::PhantomData;
use std::num::NonZeroUsize;
use triple_arena::utils::NonZeroInxVec;

/// Elements of different sizes and alignments
trait Elem: Clone + 'static {
    /// whether instances are tracked
    const TRACKED: bool;
    const NAME: &'static str;
    fn mk(id: u32) -> Self;
    fn id(&self) -> u32;
}

macro_rules! tracked {
    ($n:literal) => {
        impl Elem for tv::Tv<$n> {
            const TRACKED: bool = true;
            const NAME: &'static str = concat!("tracked, padding ", stringify!($n));
            fn mk(id: u32) -> Self {
                tv::Tv::new(id)
            }
            fn id(&self) -> u32 {
                tv::Tv::id(self)
            }
        }
    };
}
tracked!(0);
tracked!(3);
tracked!(20);
tracked!(116);
tracked!(244);
tracked!(300);
macro_rules! plain {
    ($t:ty, $n:expr, $mk:expr, $id:expr) => {
        impl Elem for $t {
            const TRACKED: bool = false;
            const NAME: &'static str = $n;
            fn mk(id: u32) -> Self {
                $mk(id)
            }
            fn id(&self) -> u32 {
                $id(self)
            }
        }
    };
}
plain!(u8, "u8", |x: u32| x as u8, |x: &u8| *x as u32);
plain!(u16, "u16", |x: u32| x as u16, |x: &u16| *x as u32);
plain!([u8; 3], "[u8; 3]", |x: u32| [x as u8, !(x as u8), 7], |x: &[u8; 3]| if x[0] == !x[1] && x[2] == 7 { x[0] as u32 } else { u32::MAX });
plain!(u128, "u128", |x: u32| (x as u128) << 64 | x as u128, |x: &u128| if *x >> 64 == *x & 0xffff_ffff { *x as u32 } else { u32::MAX });
plain!(String, "String", |x: u32| format!("{x}"), |x: &String| x.parse().unwrap_or(u32::MAX));

#[derive(Clone)]
#[repr(align(64))]
struct A64(u32, u32);
plain!(A64, "align 64", |x: u32| A64(x, !x), |x: &A64| if x.0 == !x.1 { x.0 } else { u32::MAX });
#[derive(Clone)]
#[repr(align(4096))]
struct A4096(tv::Tv<0>);
impl Elem for A4096 {
    const TRACKED: bool = true;
    const NAME: &'static str = "align 4096";
    fn mk(id: u32) -> Self {
        A4096(tv::Tv::new(id))
    }
    fn id(&self) -> u32 {
        self.0.id()
    }
}
impl Elem for Box<tv::Tv<0>> {
    const TRACKED: bool = true;
    const NAME: &'static str = "Box";
    fn mk(id: u32) -> Self {
        Box::new(tv::Tv::new(id))
    }
    fn id(&self) -> u32 {
        (**self).id()
    }
}

/// how small ids have to stay to be represented
const IDS: u32 = 251;

#[derive(Clone, Copy)]
#[repr(C)]
struct Op {
    k: u8,
    _z: [u8; 3],
    i: u16,
    j: u16,
}
const NAMES: &[&str] =
    &["push", "pop", "get_mut", "get2_mut", "reserve", "clear", "clear_and_shrink", "shrink_to_fit", "clone", "clone_from", "reserve too much"];
impl fmt::Debug for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}({},{})", NAMES[self.k as usize], self.i, self.j)
    }
}
fn op(k: u8, i: usize, j: usize) -> Op {
    Op { k, _z: [0; 3], i: i as u16, j: j as u16 }
}
fn nz(x: usize) -> NonZeroUsize {
    NonZeroUsize::new(x).unwrap()
}

struct Cfg {
    max_len: usize,
    max_cap: usize,
}

struct V<E: Elem> {
    v: NonZeroInxVec<E>,
    m: Vec<u32>,
    cap: usize,
    next: u32,
    _e: PhantomData<E>,
}

fn huge() -> Vec<usize> {
    vec![usize::MAX, usize::MAX - 1, usize::MAX - 3, usize::MAX / 2 + 1, usize::MAX / 2 + 2, usize::MAX / 2 + 1000, usize::MAX / 4 * 3]
}

impl<E: Elem> V<E> {
    fn id(&mut self) -> u32 {
        self.next = (self.next + 1) % IDS;
        self.next
    }
    fn push(&mut self) -> R {
        let id = self.id();
        self.v.push(E::mk(id));
        self.m.push(id);
        let c = self.v.capacity();
        if self.m.len() > self.cap {
            ensure!(c >= self.m.len(), "capacity {c} for {} elements", self.m.len());
            self.cap = c;
        }
        same!(c, self.cap, "capacity() after push");
        Ok(())
    }
    fn reserve(&mut self, n: usize) -> R {
        self.v.reserve(n);
        let c = self.v.capacity();
        ensure!(c >= self.m.len() + n, "reserve({n}) with length {} gave capacity {c}", self.m.len());
        ensure!(c >= self.cap, "reserve({n}) lowered the capacity from {} to {c}", self.cap);
        self.cap = c;
        Ok(())
    }
    fn same(&mut self) -> R {
        same!(self.v.len(), self.m.len(), "len()");
        same!(self.v.is_empty(), self.m.is_empty(), "is_empty()");
        same!(self.v.capacity(), self.cap, "capacity()");
        let inx: Vec<usize> = self.v.nziter().into_iter().take(self.m.len() + 9).map(|x| x.get()).collect();
        same!(inx, (1..=self.m.len()).collect::<Vec<_>>(), "nziter()");
        for (i, id) in self.m.iter().enumerate() {
            let r = self.v.get(nz(i + 1)).ok_or_else(|| format!("get({}) yields nothing", i + 1))?;
            let a = r as *const E as usize;
            same!(a % std::mem::align_of::<E>(), 0, "misalignment of element {}", i + 1);
            same!(r.id(), *id, "get({})", i + 1);
            let r = self.v.get_mut(nz(i + 1)).ok_or_else(|| format!("get_mut({}) yields nothing", i + 1))?;
            same!(r as *const E as usize, a, "address of get_mut({})", i + 1);
        }
        for i in [self.m.len() + 1, self.m.len() + 2, self.cap.max(self.m.len()) + 1, usize::MAX] {
            ensure!(self.v.get(nz(i)).is_none(), "get({i}) yields something, length {}", self.m.len());
            ensure!(self.v.get_mut(nz(i)).is_none(), "get_mut({i}) yields something, length {}", self.m.len());
            ensure!(self.v.get2_mut(nz(i), nz(1)).is_none(), "get2_mut({i}, 1) yields something");
            ensure!(self.v.get2_mut(nz(1), nz(i)).is_none(), "get2_mut(1, {i}) yields something");
        }
        Ok(())
    }
    fn live(&self, more: usize) -> R {
        if E::TRACKED {
            tv::check_live(self.m.len() + more)
        } else {
            Ok(())
        }
    }
}

impl<E: Elem> World for V<E> {
    type Op = Op;
    type Cfg = Cfg;
    fn new(_: &Cfg) -> Self {
        V { v: NonZeroInxVec::new(), m: vec![], cap: 0, next: 0, _e: PhantomData }
    }
    fn ops(&self, cfg: &Cfg, out: &mut Vec<Op>) {
        let n = self.m.len();
        if n < cfg.max_len {
            out.push(op(0, 0, 0));
        }
        out.push(op(1, 0, 0));
        for i in 1..=n {
            out.push(op(2, i, 0));
            for j in 1..=n {
                out.push(op(3, i, j));
            }
        }
        let spare = self.cap - n;
        let mut want = vec![0, 1, 2, 3, spare, spare + 1];
        want.sort();
        want.dedup();
        for r in want {
            // capacity at most doubles or becomes what is asked for, in small vectors
            if n + r <= cfg.max_cap {
                out.push(op(4, r, 0));
            }
        }
        for k in 5..10 {
            out.push(op(k, 0, 0));
        }
        for i in 0..3 {
            out.push(op(9, i, 1));
        }
        for i in 0..huge().len() {
            out.push(op(10, i, 0));
        }
    }
    fn apply(&mut self, _: &Cfg, o: Op) -> R {
        let (i, j) = (o.i as usize, o.j as usize);
        match o.k {
            0 => self.push()?,
            1 => {
                let r = self.v.pop().map(|e| e.id());
                same!(r, self.m.pop(), "pop()");
            }
            2 => {
                let id = self.id();
                *self.v.get_mut(nz(i)).ok_or("get_mut yields nothing")? = E::mk(id);
                self.m[i - 1] = id;
            }
            3 => {
                let r = self.v.get2_mut(nz(i), nz(j));
                same!(r.is_some(), i != j, "get2_mut({i}, {j}) yields something");
                if let Some((a, b)) = r {
                    same!((a.id(), b.id()), (self.m[i - 1], self.m[j - 1]), "get2_mut({i}, {j})");
                    std::mem::swap(a, b);
                    self.m.swap(i - 1, j - 1);
                }
            }
            4 => self.reserve(i)?,
            5 => {
                self.v.clear();
                self.m.clear();
            }
            6 => {
                self.v.clear_and_shrink();
                self.m.clear();
                self.cap = 0;
            }
            7 => {
                self.v.shrink_to_fit();
                let c = self.v.capacity();
                ensure!(c == self.m.len() || std::mem::size_of::<E>() == 0, "shrink_to_fit() took the capacity from {} to {c}, length {}", self.cap, self.m.len());
                self.cap = c;
            }
            8 => {
                let mut n = V { v: self.v.clone(), m: self.m.clone(), cap: 0, next: self.next, _e: PhantomData };
                n.cap = n.v.capacity();
                ensure!(n.cap >= n.m.len(), "clone has capacity {} for {} elements", n.cap, n.m.len());
                n.same().map_err(|e| format!("clone: {e}"))?;
                self.same()?;
                self.live(self.m.len())?;
                *self = n;
            }
            9 => {
                // over a vector of another length
                let mut n = V { v: NonZeroInxVec::new(), m: vec![], cap: 0, next: 100, _e: PhantomData };
                if j == 1 {
                    for _ in 0..[self.m.len() + 1, self.m.len().saturating_sub(1), 3][i] {
                        n.push()?;
                    }
                }
                n.v.clone_from(&self.v);
                n.m = self.m.clone();
                n.next = self.next;
                n.cap = n.v.capacity();
                ensure!(n.cap >= n.m.len(), "clone has capacity {} for {} elements", n.cap, n.m.len());
                n.same().map_err(|e| format!("clone_from: {e}"))?;
                self.same()?;
                self.live(self.m.len())?;
                *self = n;
            }
            _ => {
                let n = huge()[i];
                let v = &mut self.v;
                ensure!(
                    panics(|| v.reserve(n)).is_err(),
                    "reserve({n}) with length {} neither panicked nor gave that capacity",
                    self.m.len()
                );
            }
        }
        Ok(())
    }
    fn observe(&mut self, _: &Cfg) -> R {
        self.same()?;
        self.live(0)
    }
    fn finish(self, _: &Cfg, key: &mut KeyHash) -> R {
        // the elements are all alike to the code
        key.put(self.m.len() as u64);
        key.put(self.cap as u64);
        drop(self.v);
        Ok(())
    }
}

fn histories<E: Elem>(c: &mut Ctx, max_len: usize, lim: Lim) {
    c.explore::<V<E>>(
        &format!("{} ({} bytes), up to {max_len} elements", E::NAME, std::mem::size_of::<E>()),
        Cfg { max_len, max_cap: max_len },
        lim,
    );
}

/// Every length, from every initially reserved amount, then every operation twice
fn lengths<E: Elem>(c: &mut Ctx, reserves: Vec<usize>, lens: Vec<usize>) {
    const TAILS: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
    let nt = TAILS.len() as u64;
    let (nr, nl) = (reserves.len() as u64, lens.len() as u64);
    let (r2, l2) = (reserves.clone(), lens.clone());
    c.enumerate(
        &format!("{} ({} bytes), lengths to {}", E::NAME, std::mem::size_of::<E>(), lens.last().unwrap()),
        nt * nt * nr * nl,
        move |x| {
            let (a, b) = (TAILS[(x % nt) as usize], TAILS[(x / nt % nt) as usize]);
            format!(
                "reserve({}), {} pushes, {}, {}",
                r2[(x / nt / nt % nr) as usize],
                l2[(x / nt / nt / nr) as usize],
                NAMES[a as usize],
                NAMES[b as usize]
            )
        },
        move |x| {
            let cfg = Cfg { max_len: 0, max_cap: 0 };
            let mut w = V::<E>::new(&cfg);
            let r = reserves[(x / nt / nt % nr) as usize];
            if r != 0 {
                w.reserve(r)?;
            }
            for _ in 0..lens[(x / nt / nt / nr) as usize] {
                w.push()?;
            }
            w.same()?;
            for k in [TAILS[(x % nt) as usize], TAILS[(x / nt % nt) as usize]] {
                let n = w.m.len();
                let spare = w.cap - n;
                let o = match k {
                    2 | 3 if n < 2 => continue,
                    2 => op(2, n, 0),
                    3 => op(3, n, 1),
                    4 => op(4, spare + 1, 0),
                    9 => op(9, 1, 1),
                    k => op(k, 0, 0),
                };
                w.apply(&cfg, o)?;
                w.same()?;
            }
            w.live(0)?;
            drop(w);
            Ok(true)
        },
    );
}

macro_rules! elems {
    ($f:ident, $c:expr, $($a:expr),*) => {
        $f::<u8>($c, $($a),*);
        $f::<u16>($c, $($a),*);
        $f::<[u8; 3]>($c, $($a),*);
        $f::<u128>($c, $($a),*);
        $f::<String>($c, $($a),*);
        $f::<A64>($c, $($a),*);
        $f::<A4096>($c, $($a),*);
        $f::<Box<tv::Tv<0>>>($c, $($a),*);
        $f::<tv::Tv<0>>($c, $($a),*);
        $f::<tv::Tv<3>>($c, $($a),*);
        $f::<tv::Tv<20>>($c, $($a),*);
        $f::<tv::Tv<116>>($c, $($a),*);
        $f::<tv::Tv<244>>($c, $($a),*);
        $f::<tv::Tv<300>>($c, $($a),*);
    };
}

fn main() {
    run(|c| match c.prop.as_str() {
        "A04" => {
            elems!(histories, c, c.q(9, 12), deep());
            histories::<tv::Tv<116>>(c, c.q(33, 48), deep());
            histories::<tv::Tv<300>>(c, c.q(33, 48), deep());
            histories::<u128>(c, c.q(33, 48), deep());
            c.explore::<V<tv::Tv<300>>>("every history", Cfg { max_len: 3, max_cap: 4 }, all_to(c.q(5, 6)));
            elems!(lengths, c, vec![0, 1, 2, 3, 7, 8, 9, 33], (0..c.q(70, 140)).collect());
            lengths::<u8>(c, vec![0, 1, 255, 256, 257, 300], vec![254, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025]);
            lengths::<u16>(c, vec![0, 1, 127, 128, 129, 130], vec![126, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513]);
            lengths::<tv::Tv<0>>(c, vec![0, 1, 20, 21, 22, 23], vec![20, 21, 22, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300]);
        }
        _ => (),
    })
}
