//! Model of crossbeam-deque 0.8: the operations are atomic, another thread may
//! run before and after each, and thefts may have to be retried
use std::{cell::UnsafeCell, collections::VecDeque, fmt, marker::PhantomData, sync::Arc};
use symrt::os::point;

struct Q<T>(UnsafeCell<VecDeque<T>>);
unsafe impl<T: Send> Sync for Q<T> {}
unsafe impl<T: Send> Send for Q<T> {}
impl<T> Q<T> {
    fn new() -> Self {
        Q(UnsafeCell::new(VecDeque::new()))
    }
    fn with<R>(&self, f: impl FnOnce(&mut VecDeque<T>) -> R) -> R {
        point();
        let r = f(unsafe { &mut *self.0.get() });
        point();
        r
    }
}
impl<T> std::panic::RefUnwindSafe for Q<T> {}
impl<T> std::panic::UnwindSafe for Q<T> {}
fn retry() -> bool {
    unsafe {
        if symrt::os::RETRY > 0 && symrt::choice(2) == 1 {
            symrt::os::RETRY -= 1;
            return true;
        }
    }
    false
}
const MAX_BATCH: usize = 32;
fn batch<T>(from: &Q<T>, dest: &Worker<T>, limit: usize, pop: bool) -> Steal<Option<T>> {
    if retry() {
        return Steal::Retry;
    }
    from.with(|q| {
        if q.is_empty() {
            return Steal::Empty;
        }
        let first = if pop { q.pop_front() } else { None };
        let more = if pop { (q.len() / 2).min(limit - 1) } else { q.len().div_ceil(2).min(limit) };
        let d = unsafe { &mut *dest.q.0.get() };
        for _ in 0..more {
            d.push_back(q.pop_front().unwrap());
        }
        Steal::Success(first)
    })
}

pub struct Worker<T> {
    q: Arc<Q<T>>,
    lifo: bool,
    _not_sync: PhantomData<*mut ()>,
}
unsafe impl<T: Send> Send for Worker<T> {}
impl<T> Worker<T> {
    pub fn new_fifo() -> Self {
        Worker { q: Arc::new(Q::new()), lifo: false, _not_sync: PhantomData }
    }
    pub fn new_lifo() -> Self {
        Worker { q: Arc::new(Q::new()), lifo: true, _not_sync: PhantomData }
    }
    pub fn stealer(&self) -> Stealer<T> {
        Stealer { q: self.q.clone() }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn len(&self) -> usize {
        self.q.with(|q| q.len())
    }
    pub fn push(&self, t: T) {
        self.q.with(|q| q.push_back(t))
    }
    pub fn pop(&self) -> Option<T> {
        self.q.with(|q| if self.lifo { q.pop_back() } else { q.pop_front() })
    }
}
pub struct Stealer<T> {
    q: Arc<Q<T>>,
}
impl<T> Clone for Stealer<T> {
    fn clone(&self) -> Self {
        Stealer { q: self.q.clone() }
    }
}
impl<T> Stealer<T> {
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn len(&self) -> usize {
        self.q.with(|q| q.len())
    }
    pub fn steal(&self) -> Steal<T> {
        if retry() {
            return Steal::Retry;
        }
        self.q.with(|q| q.pop_front()).map_or(Steal::Empty, Steal::Success)
    }
    pub fn steal_batch(&self, dest: &Worker<T>) -> Steal<()> {
        self.steal_batch_with_limit(dest, MAX_BATCH)
    }
    pub fn steal_batch_with_limit(&self, dest: &Worker<T>, limit: usize) -> Steal<()> {
        if Arc::ptr_eq(&self.q, &dest.q) {
            return if dest.is_empty() { Steal::Empty } else { Steal::Success(()) };
        }
        unit(batch(&self.q, dest, limit, false))
    }
    pub fn steal_batch_and_pop(&self, dest: &Worker<T>) -> Steal<T> {
        self.steal_batch_with_limit_and_pop(dest, MAX_BATCH)
    }
    pub fn steal_batch_with_limit_and_pop(&self, dest: &Worker<T>, limit: usize) -> Steal<T> {
        if Arc::ptr_eq(&self.q, &dest.q) {
            return dest.pop().map_or(Steal::Empty, Steal::Success);
        }
        one(batch(&self.q, dest, limit, true))
    }
}
fn unit<T>(s: Steal<Option<T>>) -> Steal<()> {
    match s {
        Steal::Empty => Steal::Empty,
        Steal::Retry => Steal::Retry,
        Steal::Success(_) => Steal::Success(()),
    }
}
fn one<T>(s: Steal<Option<T>>) -> Steal<T> {
    match s {
        Steal::Empty => Steal::Empty,
        Steal::Retry => Steal::Retry,
        Steal::Success(x) => Steal::Success(x.unwrap()),
    }
}
pub struct Injector<T> {
    q: Q<T>,
}
impl<T> Default for Injector<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> Injector<T> {
    pub fn new() -> Self {
        Injector { q: Q::new() }
    }
    pub fn push(&self, t: T) {
        self.q.with(|q| q.push_back(t))
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn len(&self) -> usize {
        self.q.with(|q| q.len())
    }
    pub fn steal(&self) -> Steal<T> {
        if retry() {
            return Steal::Retry;
        }
        self.q.with(|q| q.pop_front()).map_or(Steal::Empty, Steal::Success)
    }
    pub fn steal_batch(&self, dest: &Worker<T>) -> Steal<()> {
        unit(batch(&self.q, dest, MAX_BATCH, false))
    }
    pub fn steal_batch_with_limit(&self, dest: &Worker<T>, limit: usize) -> Steal<()> {
        unit(batch(&self.q, dest, limit, false))
    }
    pub fn steal_batch_and_pop(&self, dest: &Worker<T>) -> Steal<T> {
        one(batch(&self.q, dest, MAX_BATCH, true))
    }
    pub fn steal_batch_with_limit_and_pop(&self, dest: &Worker<T>, limit: usize) -> Steal<T> {
        one(batch(&self.q, dest, limit, true))
    }
}

#[must_use]
#[derive(PartialEq, Eq, Copy, Clone)]
pub enum Steal<T> {
    Empty,

    Success(T),

    Retry,
}

impl<T> Steal<T> {
    pub fn is_empty(&self) -> bool {
        match self {
            Steal::Empty => true,
            _ => false,
        }
    }

    pub fn is_success(&self) -> bool {
        match self {
            Steal::Success(_) => true,
            _ => false,
        }
    }

    pub fn is_retry(&self) -> bool {
        match self {
            Steal::Retry => true,
            _ => false,
        }
    }

    pub fn success(self) -> Option<T> {
        match self {
            Steal::Success(res) => Some(res),
            _ => None,
        }
    }

    pub fn or_else<F>(self, f: F) -> Steal<T>
    where
        F: FnOnce() -> Steal<T>,
    {
        match self {
            Steal::Empty => f(),
            Steal::Success(_) => self,
            Steal::Retry => {
                if let Steal::Success(res) = f() {
                    Steal::Success(res)
                } else {
                    Steal::Retry
                }
            }
        }
    }
}

impl<T> fmt::Debug for Steal<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Steal::Empty => f.pad("Empty"),
            Steal::Success(_) => f.pad("Success(..)"),
            Steal::Retry => f.pad("Retry"),
        }
    }
}

impl<T> FromIterator<Steal<T>> for Steal<T> {
    fn from_iter<I>(iter: I) -> Steal<T>
    where
        I: IntoIterator<Item = Steal<T>>,
    {
        let mut retry = false;
        for s in iter {
            match &s {
                Steal::Empty => {}
                Steal::Success(_) => return s,
                Steal::Retry => retry = true,
            }
        }

        if retry {
            Steal::Retry
        } else {
            Steal::Empty
        }
    }
}
