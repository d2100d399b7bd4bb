//! Verification model of `memchr`: the documented contract as plain byte loops
//! (the real crate dispatches to SIMD code at run time through cpuid).
pub fn memchr(n: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if h[i] == n {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if (h[i] == a) | (h[i] == b) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < h.len() {
        if (h[i] == a) | (h[i] == b) | (h[i] == c) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn memrchr(n: u8, h: &[u8]) -> Option<usize> {
    let mut i = h.len();
    while i > 0 {
        i -= 1;
        if h[i] == n {
            return Some(i);
        }
    }
    None
}
pub fn memchr_iter(n: u8, h: &[u8]) -> Memchr<'_> {
    Memchr { n, h, i: 0 }
}
pub struct Memchr<'h> {
    n: u8,
    h: &'h [u8],
    i: usize,
}
impl Iterator for Memchr<'_> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        while self.i < self.h.len() {
            let i = self.i;
            self.i += 1;
            if self.h[i] == self.n {
                return Some(i);
            }
        }
        None
    }
}
pub fn memrchr2(a: u8, b: u8, h: &[u8]) -> Option<usize> {
    h.iter().rposition(|&x| (x == a) | (x == b))
}
pub fn memrchr3(a: u8, b: u8, c: u8, h: &[u8]) -> Option<usize> {
    h.iter().rposition(|&x| (x == a) | (x == b) | (x == c))
}
pub mod memmem {
    use std::borrow::Cow;
    #[derive(Clone, Debug)]
    pub struct Finder<'n>(Cow<'n, [u8]>);
    impl<'n> Finder<'n> {
        pub fn new<B: ?Sized + AsRef<[u8]>>(needle: &'n B) -> Finder<'n> {
            Finder(Cow::Borrowed(needle.as_ref()))
        }
        pub fn into_owned(self) -> Finder<'static> {
            Finder(Cow::Owned(self.0.into_owned()))
        }
        pub fn needle(&self) -> &[u8] {
            &self.0
        }
        pub fn find(&self, h: &[u8]) -> Option<usize> {
            let n = self.0.len();
            if h.len() < n {
                return None;
            }
            let mut i = 0;
            while i + n <= h.len() {
                if h[i..i + n] == *self.0 {
                    return Some(i);
                }
                i += 1;
            }
            None
        }
    }
    pub fn find(h: &[u8], n: &[u8]) -> Option<usize> {
        Finder::new(n).find(h)
    }
}
