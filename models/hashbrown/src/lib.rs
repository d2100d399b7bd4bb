//! Verification model of `hashbrown::raw::RawTable`: a multimap from hash to
//! value searched linearly, i.e. the contract of the real table without its
//! SIMD probing.  `get` only offers entries whose insertion hash equals the
//! requested hash, so looking something up under another hash than it was
//! inserted under misses here too.
pub enum TryReserveError {
    CapacityOverflow,
    AllocError { layout: std::alloc::Layout },
}
pub mod raw {
    #[derive(Clone)]
    pub struct RawTable<T>(Vec<(u64, T)>);
    impl<T> Default for RawTable<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    pub struct Bucket<T>(*const T);
    impl<T> Bucket<T> {
        pub unsafe fn as_ref<'a>(&self) -> &'a T {
            &*self.0
        }
        pub unsafe fn as_mut<'a>(&self) -> &'a mut T {
            &mut *(self.0 as *mut T)
        }
        pub fn as_ptr(&self) -> *mut T {
            self.0 as *mut T
        }
    }
    impl<T> RawTable<T> {
        pub const fn new() -> Self {
            RawTable(Vec::new())
        }
        pub fn with_capacity(_: usize) -> Self {
            RawTable(Vec::new())
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn get(&self, hash: u64, mut eq: impl FnMut(&T) -> bool) -> Option<&T> {
            let mut i = 0;
            while i < self.0.len() {
                if self.0[i].0 == hash && eq(&self.0[i].1) {
                    return Some(&self.0[i].1);
                }
                i += 1;
            }
            None
        }
        pub fn get_mut(&mut self, hash: u64, mut eq: impl FnMut(&T) -> bool) -> Option<&mut T> {
            let i = self.0.iter().position(|e| e.0 == hash && eq(&e.1))?;
            Some(&mut self.0[i].1)
        }
        pub fn insert_entry(&mut self, hash: u64, value: T, hasher: impl Fn(&T) -> u64) -> &mut T {
            self.insert(hash, value, hasher);
            &mut self.0.last_mut().unwrap().1
        }
        pub fn remove_entry(&mut self, hash: u64, mut eq: impl FnMut(&T) -> bool) -> Option<T> {
            let i = self.0.iter().position(|e| e.0 == hash && eq(&e.1))?;
            Some(self.0.remove(i).1)
        }
        pub fn reserve(&mut self, _: usize, _: impl Fn(&T) -> u64) {}
        pub fn shrink_to(&mut self, _: usize, _: impl Fn(&T) -> u64) {}
        pub fn capacity(&self) -> usize {
            self.0.capacity()
        }
        pub fn find(&self, hash: u64, eq: impl FnMut(&T) -> bool) -> Option<Bucket<T>> {
            self.get(hash, eq).map(|r| Bucket(r))
        }
        pub fn insert(&mut self, hash: u64, value: T, hasher: impl Fn(&T) -> u64) -> Bucket<T> {
            // The real table may rehash its entries at any insertion
            // (growth), so the model does it at every insertion.
            let mut i = 0;
            while i < self.0.len() {
                self.0[i].0 = hasher(&self.0[i].1);
                i += 1;
            }
            self.0.push((hash, value));
            Bucket(&self.0[self.0.len() - 1].1)
        }
        pub unsafe fn iter(&self) -> impl Iterator<Item = Bucket<T>> + '_ {
            self.0.iter().map(|(_, v)| Bucket(v as *const T))
        }
        // Only there so that crates no harness reaches compile
        pub unsafe fn insert_no_grow(&mut self, _: u64, _: T) -> Bucket<T> {
            unimplemented!()
        }
        pub unsafe fn erase(&self, _: Bucket<T>) {
            unimplemented!()
        }
        pub unsafe fn find_or_find_insert_slot(&self, _: u64, _: impl FnMut(&T) -> bool, _: impl Fn(&T) -> u64) -> Result<Bucket<T>, ()> {
            unimplemented!()
        }
        pub unsafe fn insert_in_slot(&mut self, _: u64, _: (), _: T) -> Bucket<T> {
            unimplemented!()
        }
        pub unsafe fn remove(&mut self, _: Bucket<T>) -> (T, ()) {
            unimplemented!()
        }
        pub fn erase_entry(&mut self, hash: u64, eq: impl FnMut(&T) -> bool) -> bool {
            self.remove_entry(hash, eq).is_some()
        }
        pub fn clone_from_with_hasher(&mut self, _: &Self, _: impl Fn(&T) -> u64) {
            unimplemented!()
        }
        pub fn buckets(&self) -> usize {
            unimplemented!()
        }
        pub fn get_many_mut<const N: usize>(&mut self, _: [u64; N], _: impl FnMut(usize, &T) -> bool) -> Option<[&mut T; N]> {
            unimplemented!()
        }
        pub fn try_reserve(&mut self, _: usize, _: impl Fn(&T) -> u64) -> Result<(), super::TryReserveError> {
            unimplemented!()
        }
        pub fn clear(&mut self) {
            self.0.clear()
        }
    }
}
