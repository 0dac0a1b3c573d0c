//! What is known about the pointers of one arena: which are live, which were ever issued.

use crate::engine::{KeyHash, R};
use crate::ensure;
use crate::px::{Px, Raw};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Book<E> {
    /// index -> (generation, element)
    pub live: BTreeMap<usize, (u64, E)>,
    /// every pointer ever handed out
    pub issued: Vec<Raw>,
    pub gen: u64,
    pub cap: usize,
    pub has_gen: bool,
}

impl<E> Book<E> {
    pub fn new<P: Px>() -> Self {
        Book { live: BTreeMap::new(), issued: vec![], gen: if P::HAS_GEN { 2 } else { 0 }, cap: 0, has_gen: P::HAS_GEN }
    }

    pub fn len(&self) -> usize {
        self.live.len()
    }
    pub fn is_empty(&self) -> bool {
        self.live.is_empty()
    }

    pub fn inc(&mut self) {
        if self.has_gen {
            self.gen += 1;
        }
    }

    /// The pointer was handed out for a new element
    pub fn issue(&mut self, r: Raw, e: E) -> R {
        ensure!(r.0 >= 1, "a pointer with index zero was issued");
        ensure!(
            !self.live.contains_key(&r.0),
            "the issued pointer {:?} uses the slot of the live element with pointer {:?}",
            r,
            (r.0, self.live[&r.0].0)
        );
        if self.has_gen {
            ensure!(r.1 >= 2, "the issued pointer {:?} has a generation that marks invalid pointers", r);
            ensure!(!self.issued.contains(&r), "the pointer {:?} was issued before", r);
            self.issued.push(r);
        }
        self.live.insert(r.0, (r.1, e));
        Ok(())
    }

    /// Like `issue` for an element which keeps its slot but gets a new pointer
    pub fn reissue(&mut self, old_inx: usize, r: Raw) -> R {
        let (_, e) = self.live.remove(&old_inx).unwrap();
        self.issue(r, e)
    }

    pub fn valid(&self, r: Raw) -> bool {
        matches!(self.live.get(&r.0), Some((g, _)) if *g == r.1)
    }
    pub fn get(&self, r: Raw) -> Option<&E> {
        match self.live.get(&r.0) {
            Some((g, e)) if *g == r.1 => Some(e),
            _ => None,
        }
    }
    pub fn raw(&self, inx: usize) -> Raw {
        (inx, self.live[&inx].0)
    }
    pub fn ptrs(&self) -> Vec<Raw> {
        self.live.iter().map(|(i, (g, _))| (*i, *g)).collect()
    }

    /// Invalid pointers worth trying: every slot (and two beyond) with every generation that is not the
    /// live one, limited to the initial, the recent, and all issued ones
    pub fn invalid_ptrs(&self, max_inx: u128) -> Vec<Raw> {
        let mut v = vec![];
        for i in 1..=(self.cap + 2) {
            if i as u128 > max_inx {
                break;
            }
            if !self.has_gen {
                if !self.live.contains_key(&i) {
                    v.push((i, 0));
                }
                continue;
            }
            let lo = self.gen.saturating_sub(5).max(1);
            if lo > 1 {
                v.push((i, 1));
            }
            for g in lo..=self.gen + 1 {
                if !self.valid((i, g)) {
                    v.push((i, g));
                }
            }
        }
        for r in &self.issued {
            if !self.valid(*r) && !v.contains(r) {
                v.push(*r);
            }
        }
        v
    }

    /// Invalid pointers that were once valid, plus a few that never were, for use as operation arguments
    pub fn stale_few(&self) -> Vec<Raw> {
        let mut v = vec![];
        if self.has_gen {
            // one stale pointer per slot, preferring the latest
            for i in 1..=self.cap.max(1) {
                if let Some(r) = self.issued.iter().rev().find(|r| r.0 == i && !self.valid(**r)) {
                    v.push(*r);
                } else if self.live.contains_key(&i) {
                    v.push((i, self.gen + 1));
                } else {
                    v.push((i, 2));
                }
            }
        } else {
            for i in 1..=self.cap {
                if !self.live.contains_key(&i) {
                    v.push((i, 0));
                }
            }
            v.push((self.cap + 1, 0));
        }
        v
    }

    /// Occupancy and, optionally, the age classes of the live generations
    pub fn key(&self, k: &mut KeyHash, ages: bool) {
        k.put(self.cap as u64);
        for (i, (g, _)) in &self.live {
            k.put(*i as u64);
            if ages && self.has_gen {
                k.put((self.gen - *g).min(2));
            }
        }
        k.put(1 << 40);
    }
}
