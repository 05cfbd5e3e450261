//! Hash maps and sets with a fixed hasher: a schedule has to mean the same each time it is replayed, so the
//! order in which the code under test walks them must not change from run to run.
pub use std::collections::*;
use std::borrow::Borrow;
use std::hash::{BuildHasher, BuildHasherDefault, Hash};
use std::ops::{Deref, DerefMut, Index};
pub type Fixed = BuildHasherDefault<std::collections::hash_map::DefaultHasher>;

pub struct HashMap<K, V, S = Fixed>(std::collections::HashMap<K, V, S>);
pub struct HashSet<T, S = Fixed>(std::collections::HashSet<T, S>);

macro_rules! both {
    ($n:ident, [$($p:ident),*], $item:ty, $borrowed:ty) => {
        impl<$($p),*> $n<$($p),*> {
            pub fn new() -> Self {
                Self(Default::default())
            }
            pub fn with_capacity(n: usize) -> Self {
                Self(std::collections::$n::with_capacity_and_hasher(n, Default::default()))
            }
        }
        impl<$($p,)* S> $n<$($p,)* S> {
            pub fn with_hasher(s: S) -> Self {
                Self(std::collections::$n::with_hasher(s))
            }
            pub fn with_capacity_and_hasher(n: usize, s: S) -> Self {
                Self(std::collections::$n::with_capacity_and_hasher(n, s))
            }
        }
        impl<$($p,)* S> Deref for $n<$($p,)* S> {
            type Target = std::collections::$n<$($p,)* S>;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl<$($p,)* S> DerefMut for $n<$($p,)* S> {
            fn deref_mut(&mut self) -> &mut Self::Target {
                &mut self.0
            }
        }
        impl<$($p,)* S: Default> Default for $n<$($p,)* S> {
            fn default() -> Self {
                Self(Default::default())
            }
        }
        impl<$($p: Clone,)* S: Clone> Clone for $n<$($p,)* S> {
            fn clone(&self) -> Self {
                Self(self.0.clone())
            }
        }
        impl<$($p: std::fmt::Debug,)* S> std::fmt::Debug for $n<$($p,)* S> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                self.0.fmt(f)
            }
        }
        impl<$($p,)* S> IntoIterator for $n<$($p,)* S> {
            type Item = $item;
            type IntoIter = <std::collections::$n<$($p,)* S> as IntoIterator>::IntoIter;
            fn into_iter(self) -> Self::IntoIter {
                self.0.into_iter()
            }
        }
        impl<'a, $($p,)* S> IntoIterator for &'a $n<$($p,)* S> {
            type Item = $borrowed;
            type IntoIter = <&'a std::collections::$n<$($p,)* S> as IntoIterator>::IntoIter;
            fn into_iter(self) -> Self::IntoIter {
                (&self.0).into_iter()
            }
        }
    };
}
both!(HashMap, [K, V], (K, V), (&'a K, &'a V));
both!(HashSet, [T], T, &'a T);

impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = std::collections::hash_map::IterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter_mut()
    }
}
impl<K, V, S> HashMap<K, V, S> {
    pub fn into_keys(self) -> std::collections::hash_map::IntoKeys<K, V> {
        self.0.into_keys()
    }
    pub fn into_values(self) -> std::collections::hash_map::IntoValues<K, V> {
        self.0.into_values()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<'a, K: Eq + Hash + Copy, V: Copy, S: BuildHasher> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<'a, T: Eq + Hash + Copy + 'a, S: BuildHasher> Extend<&'a T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T> {
    fn from(a: [T; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash, V> From<std::collections::HashMap<K, V>> for HashMap<K, V> {
    fn from(a: std::collections::HashMap<K, V>) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        &self.0[k]
    }
}
macro_rules! set_op {
    ($($tr:ident $f:ident),*) => {$(
        impl<T: Eq + Hash + Clone, S: BuildHasher + Default> std::ops::$tr<&HashSet<T, S>> for &HashSet<T, S> {
            type Output = HashSet<T, S>;
            fn $f(self, o: &HashSet<T, S>) -> HashSet<T, S> {
                HashSet(std::ops::$tr::$f(&self.0, &o.0))
            }
        }
    )*};
}
set_op!(BitAnd bitand, BitOr bitor, BitXor bitxor, Sub sub);

impl<K: serde::Serialize, V: serde::Serialize, S> serde::Serialize for HashMap<K, V, S> {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        z.collect_map(self.0.iter())
    }
}
impl<T: serde::Serialize, S> serde::Serialize for HashSet<T, S> {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        z.collect_seq(self.0.iter())
    }
}
impl<'de, K: serde::Deserialize<'de> + Eq + Hash, V: serde::Deserialize<'de>, S: BuildHasher + Default> serde::Deserialize<'de> for HashMap<K, V, S> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        std::collections::HashMap::deserialize(d).map(Self)
    }
}
impl<'de, T: serde::Deserialize<'de> + Eq + Hash, S: BuildHasher + Default> serde::Deserialize<'de> for HashSet<T, S> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        std::collections::HashSet::deserialize(d).map(Self)
    }
}
