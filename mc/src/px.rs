//! Pointer types used by the harness, with raw access to index and generation.

use std::num::{NonZeroU128, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU8, NonZeroUsize};
use triple_arena::utils::PtrInx;
use triple_arena::{ptr_struct, Ptr};

/// Raw pointer: (index, generation); the generation is 0 for pointer types without one
pub type Raw = (usize, u64);

pub trait Px: Ptr {
    const HAS_GEN: bool;
    fn max_inx() -> u128;
    fn max_gen() -> u64;
    fn mk(r: Raw) -> Self;
    fn mkgen(g: u64) -> Self::Gen;
    fn rawgen(g: Self::Gen) -> u64;
    fn raw(self) -> Raw {
        (PtrInx::get(self.inx()).get(), Self::rawgen(self.generation()))
    }
    fn mkinx(i: usize) -> Self::Inx {
        PtrInx::new(NonZeroUsize::new(i).unwrap())
    }
}

pub trait GenRaw: Copy {
    const HAS: bool;
    const MAX: u64;
    fn to(self) -> u64;
    fn from(x: u64) -> Self;
}
macro_rules! genraw { ($($t:ident $p:ident),*) => {$(
    impl GenRaw for $t {
        const HAS: bool = true;
        const MAX: u64 = if ($p::MAX as u128) > (u64::MAX as u128) { u64::MAX } else { $p::MAX as u64 };
        fn to(self) -> u64 { self.get() as u64 }
        fn from(x: u64) -> Self { $t::new(x as $p).unwrap() }
    }
)*}; }
genraw!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128);
impl GenRaw for () {
    const HAS: bool = false;
    const MAX: u64 = 0;
    fn to(self) -> u64 {
        0
    }
    fn from(_: u64) -> Self {}
}

impl<P: Ptr> Px for P
where
    P::Gen: GenRaw,
{
    const HAS_GEN: bool = <P::Gen as GenRaw>::HAS;
    fn max_inx() -> u128 {
        <P::Inx as PtrInx>::max().get() as u128
    }
    fn max_gen() -> u64 {
        <P::Gen as GenRaw>::MAX
    }
    fn mk(r: Raw) -> Self {
        P::_from_raw(PtrInx::new(NonZeroUsize::new(r.0).unwrap()), <P::Gen as GenRaw>::from(r.1))
    }
    fn mkgen(g: u64) -> Self::Gen {
        <P::Gen as GenRaw>::from(g)
    }
    fn rawgen(g: Self::Gen) -> u64 {
        g.to()
    }
}

ptr_struct!(PD);
ptr_struct!(PN());
ptr_struct!(P88[NonZeroU8](NonZeroU8));
ptr_struct!(P8N[NonZeroU8]());
ptr_struct!(P8D[NonZeroU8]);
ptr_struct!(PD8(NonZeroU8));
ptr_struct!(P1616[NonZeroU16](NonZeroU16));
ptr_struct!(P3232[NonZeroU32](NonZeroU32));
ptr_struct!(P128[NonZeroU128](NonZeroU128));
ptr_struct!(PQ);
