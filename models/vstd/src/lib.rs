//! A stand-in for `std` used only in the symbolic build: everything is the real `std`,
//! except the hash containers (whose SipHash and SIMD probing would swamp a solver) and
//! `fs::File` (so that nothing touches the disk while paths are explored).
pub use ::std::*;

pub mod collections {
    pub use ::std::collections::*;
    pub mod hash_map { pub use crate::hmap::{HashMap, Entry, OccupiedEntry, VacantEntry, Iter, IterMut, IntoIter, Keys, Values, ValuesMut, IntoKeys, IntoValues, Drain}; pub use ::std::collections::hash_map::{DefaultHasher, RandomState}; }
    pub mod hash_set { pub use crate::hset::{HashSet, Iter, IntoIter, Drain}; }
    pub use crate::hmap::HashMap;
    pub use crate::hset::HashSet;
}
pub mod hmap;
pub mod hset;
pub mod fs;

use ::std::sync::atomic::{AtomicU64, Ordering};
static ORDER: AtomicU64 = AtomicU64::new(0);
/// iteration order of the hash containers: 0 = insertion order, 1 = reversed
pub fn set_order(x: u64) { ORDER.store(x, Ordering::Relaxed); }
pub(crate) fn ordered<T>(mut v: ::std::vec::Vec<T>) -> ::std::vec::IntoIter<T> {
    if ORDER.load(Ordering::Relaxed) == 1 { v.reverse(); }
    v.into_iter()
}
