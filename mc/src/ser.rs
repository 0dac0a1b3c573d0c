//! Writing arenas out and reading them back (only in builds with the serialization feature).

use crate::engine::R;

/// ways to write: readable text and bytes
pub const FORMATS: &[&str] = &["text", "bytes"];

#[cfg(not(feature = "serde"))]
mod imp {
    use super::*;
    pub trait Ser {}
    impl<T> Ser for T {}
    pub fn write<A: Ser>(_: &A, _: usize) -> Result<Vec<u8>, String> {
        Err("built without serialization".into())
    }
    pub fn reload<A: Ser>(_: &A, _: usize) -> R<A> {
        Err("built without serialization".into())
    }
}

#[cfg(feature = "serde")]
mod imp {
    use super::*;
    use crate::tv::Tv;
    use crate::w_ord::Kt;
    use crate::{ensure, same};
    use serde::de::{DeserializeOwned, Deserializer};
    use serde::{Deserialize, Serialize, Serializer};

    pub trait Ser: Serialize + DeserializeOwned {}
    impl<T: Serialize + DeserializeOwned> Ser for T {}

    impl<const N: usize> Serialize for Tv<N> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.id().serialize(s)
        }
    }
    impl<'de, const N: usize> Deserialize<'de> for Tv<N> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            Ok(Tv::new(u32::deserialize(d)?))
        }
    }
    impl Serialize for Kt {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            ((self.k >> 64) as u64, self.k as u64, self.t.id()).serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for Kt {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let (hi, lo, id) = <(u64, u64, u32)>::deserialize(d)?;
            Ok(Kt::new((hi as u128) << 64 | lo as u128, id))
        }
    }

    pub fn write<A: Ser>(a: &A, format: usize) -> Result<Vec<u8>, String> {
        match format {
            0 => ron::to_string(a).map(String::into_bytes).map_err(|e| e.to_string()),
            _ => postcard::to_allocvec(a).map_err(|e| e.to_string()),
        }
    }
    fn read<A: Ser>(b: &[u8], format: usize) -> Result<A, String> {
        match format {
            0 => ron::from_str(std::str::from_utf8(b).unwrap()).map_err(|e| e.to_string()),
            _ => postcard::from_bytes(b).map_err(|e| e.to_string()),
        }
    }
    /// Writes, reads, and writes again, which has to give the same
    pub fn reload<A: Ser>(a: &A, format: usize) -> R<A> {
        let b = write(a, format).map_err(|e| format!("serialization failed: {e}"))?;
        ensure!(!b.is_empty(), "nothing was written");
        let n = read::<A>(&b, format).map_err(|e| format!("what was written cannot be read: {e} ({:?})", String::from_utf8_lossy(&b)))?;
        let b2 = write(&n, format).map_err(|e| format!("serialization of what was read failed: {e}"))?;
        // in whichever order the entries come
        same!(b2.len(), b.len(), "length written again after reading");
        Ok(n)
    }
}
pub use imp::*;
