//! Verification model of `lasso`: the key types are lasso's own source
//! (keys.rs, unmodified apart from dropping its tests); the string interner is
//! a linear list.
mod keys;
pub use keys::{Key, LargeSpur, MicroSpur, MiniSpur, Spur};

pub trait Resolver<K: Key = Spur> {
    fn resolve<'a>(&'a self, key: &K) -> &'a str;
    fn contains_key(&self, key: &K) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

#[derive(Debug, Clone)]
pub struct Rodeo<K: Key = Spur> {
    strings: Vec<Box<str>>,
    k: std::marker::PhantomData<K>,
}
impl<K: Key> Rodeo<K> {
    pub fn new() -> Self {
        Rodeo { strings: Vec::with_capacity(16), k: std::marker::PhantomData }
    }
    pub fn get<T: AsRef<str>>(&self, val: T) -> Option<K> {
        let val = val.as_ref();
        let mut i = 0;
        while i < self.strings.len() {
            if *self.strings[i] == *val {
                return K::try_from_usize(i);
            }
            i += 1;
        }
        None
    }
    pub fn get_or_intern<T: AsRef<str>>(&mut self, val: T) -> K {
        let val = val.as_ref();
        if let Some(k) = self.get(val) {
            return k;
        }
        let k = K::try_from_usize(self.strings.len()).expect("Failed to get or intern string");
        self.strings.push(val.into());
        k
    }
    pub fn resolve<'a>(&'a self, key: &K) -> &'a str {
        &self.strings[key.into_usize()]
    }
    pub fn len(&self) -> usize {
        self.strings.len()
    }
    pub fn is_empty(&self) -> bool {
        self.strings.is_empty()
    }
    pub fn contains_key(&self, key: &K) -> bool {
        key.into_usize() < self.strings.len()
    }
    pub fn into_resolver(self) -> RodeoResolver<K> {
        RodeoResolver(self)
    }
}
impl<K: Key> Default for Rodeo<K> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Key> Resolver<K> for Rodeo<K> {
    fn resolve<'a>(&'a self, key: &K) -> &'a str {
        Rodeo::resolve(self, key)
    }
    fn contains_key(&self, key: &K) -> bool {
        Rodeo::contains_key(self, key)
    }
    fn len(&self) -> usize {
        Rodeo::len(self)
    }
}

#[derive(Debug, Clone)]
pub struct RodeoResolver<K: Key = Spur>(Rodeo<K>);
impl<K: Key> RodeoResolver<K> {
    pub fn resolve<'a>(&'a self, key: &K) -> &'a str {
        self.0.resolve(key)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn contains_key(&self, key: &K) -> bool {
        self.0.contains_key(key)
    }
}
impl<K: Key> Resolver<K> for RodeoResolver<K> {
    fn resolve<'a>(&'a self, key: &K) -> &'a str {
        self.0.resolve(key)
    }
    fn contains_key(&self, key: &K) -> bool {
        self.0.contains_key(key)
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl<K: Key> PartialEq for RodeoResolver<K> {
    fn eq(&self, other: &Self) -> bool {
        self.len() == other.len() && (0..self.len()).all(|i| { let k = K::try_from_usize(i).unwrap(); self.resolve(&k) == other.resolve(&k) })
    }
}
impl<K: Key> Eq for RodeoResolver<K> {}
