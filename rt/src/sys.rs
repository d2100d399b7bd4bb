//! Stand-ins for the system calls behind `std::fs::File` and `std::io::stdout`:
//! files that only exist in memory, and a record of what was printed.  They
//! replace those of the C library in the symbolic and in the native build, so
//! nothing on disk is touched in either of them.
#![allow(static_mut_refs)]

pub(crate) static mut FILES: Vec<(String, Vec<u8>)> = Vec::new();
/// File and position behind the descriptors from FIRST on
static mut OPEN: Vec<(usize, usize)> = Vec::new();
static mut OUT: Option<Vec<u8>> = None;
const FIRST: i32 = 1000;

/// Directory in which the files live
pub const DIR: &str = "/verif-files/";

/// Create a file, or replace it
pub fn file(name: &str, data: &[u8]) -> String {
    let path = format!("{DIR}{name}");
    file_at(&path, data);
    path
}
/// Same, anywhere
pub fn file_at(path: &str, data: &[u8]) {
    unsafe {
        FILES.retain(|f| f.0 != path);
        FILES.push((path.to_string(), data.to_vec()));
    }
}
/// What a file contains
pub fn contents(path: &str) -> Option<Vec<u8>> {
    unsafe { FILES.iter().find(|f| f.0 == path).map(|f| f.1.clone()) }
}
/// Record what gets printed from now on
pub fn stdout_start() {
    unsafe { OUT = Some(Vec::new()) }
}
/// What was printed
pub fn stdout_end() -> Vec<u8> {
    unsafe { OUT.take().unwrap_or_default() }
}

extern "C" {
    #[cfg(feature = "native")]
    fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize) -> isize;
}
#[cfg(feature = "native")]
unsafe fn real(n: i64, a: usize, b: usize, c: usize, d: usize) -> isize {
    syscall(n, a, b, c, d)
}
#[cfg(not(feature = "native"))]
unsafe fn real(n: i64, _: usize, _: usize, c: usize, _: usize) -> isize {
    // nothing but writing to the terminal works
    if n == 1 {
        return c as isize;
    }
    #[cfg(feature = "os")]
    crate::os::errno(2);
    -1
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    match &mut OUT {
        Some(o) if fd == 1 => {
            o.extend_from_slice(std::slice::from_raw_parts(p, n));
            n as isize
        }
        _ if fd >= FIRST && fd < FIRST + OPEN.len() as i32 => {
            let f = &mut OPEN[(fd - FIRST) as usize];
            let d = &mut FILES[f.0].1;
            d.truncate(f.1);
            d.extend_from_slice(std::slice::from_raw_parts(p, n));
            f.1 += n;
            n as isize
        }
        _ => real(1, fd as usize, p as usize, n, 0),
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    let mut n = 0;
    while *path.add(n) != 0 {
        n += 1;
    }
    let s = std::slice::from_raw_parts(path, n);
    if flags & 0x40 != 0 && s.starts_with(DIR.as_bytes()) && !FILES.iter().any(|f| f.0.as_bytes() == s) {
        file_at(std::str::from_utf8(s).unwrap(), b"");
    }
    if let Some(i) = FILES.iter().position(|f| f.0.as_bytes() == s) {
        if flags & 0x200 != 0 {
            FILES[i].1.clear();
        }
        OPEN.push((i, 0));
        return FIRST + OPEN.len() as i32 - 1;
    }
    #[cfg(feature = "os")]
    if s.starts_with(b"/proc/") || s.starts_with(b"/sys/") {
        crate::os::errno(2);
        return -1;
    }
    // openat(AT_FDCWD, …)
    real(257, -100isize as usize, path as usize, flags as usize, mode as usize) as i32
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    if fd < FIRST {
        return real(0, fd as usize, p as usize, n, 0);
    }
    #[cfg(feature = "os")]
    if let Some(r) = crate::os::read(fd, p, n) {
        return r;
    }
    let (f, at) = &mut OPEN[(fd - FIRST) as usize];
    let d = &FILES[*f].1;
    let n = n.min(d.len() - *at);
    std::ptr::copy_nonoverlapping(d[*at..].as_ptr(), p, n);
    *at += n;
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd < FIRST {
        real(3, fd as usize, 0, 0, 0) as i32
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if fd < FIRST {
        real(72, fd as usize, cmd as usize, arg, 0) as i32
    } else {
        0
    }
}
