//! A model of the file system at the calls that std makes. They decide their own results; nothing reaches the file system.
//! Included by the binaries that need it: the symbols replace those of libc.
use std::os::raw::{c_char, c_int, c_void};
use std::ptr::addr_of_mut;
use sym::*;

extern "C" {
    fn __errno_location() -> *mut c_int;
    fn syscall(n: i64, ...) -> i64;
}
const EINTR: c_int = 4;
const O_WRONLY: c_int = 1;
const O_ACCMODE: c_int = 3;
const O_CREAT: c_int = 0o100;
const O_EXCL: c_int = 0o200;
const O_TRUNC: c_int = 0o1000;
const O_APPEND: c_int = 0o2000;

/// The files, and what went wrong so far.
pub struct World {
    pub on: bool,
    pub disk: Vec<(Vec<u8>, Vec<u8>)>,
    pub open: Vec<Option<(usize, usize, bool, bool)>>, // file, offset, append, only for reading
    pub fault: Option<c_int>, // the first error that was reported, 0 for a write that makes no progress
    pub left: u32,            // calls that may still fail
    pub long: bool,
    pub out: [Vec<u8>; 2],  // what is printed
    pub faulty: Vec<u8>,    // the file whose calls may fail, or any
}
static mut W: World = World { on: false, disk: Vec::new(), open: Vec::new(), fault: None, left: 0, long: false, out: [Vec::new(), Vec::new()], faulty: Vec::new() };
pub fn world() -> &'static mut World {
    unsafe { &mut *addr_of_mut!(W) }
}
fn fail(e: c_int) -> c_int {
    unsafe { *__errno_location() = e };
    -1
}
fn fault(e: c_int) -> c_int {
    let w = world();
    w.left -= 1;
    if e != EINTR && w.fault.is_none() {
        w.fault = Some(e);
    }
    fail(e)
}
pub fn file(path: &[u8]) -> Option<usize> {
    world().disk.iter().position(|x| x.0 == path)
}
unsafe fn name(p: *const c_char) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while *p.add(i) != 0 {
        v.push(*p.add(i) as u8);
        i += 1;
    }
    v
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let w = world();
    if !w.on {
        return syscall(257, -100i64, p, flags as i64, mode as i64) as c_int;
    }
    let n = name(p);
    if w.left > 0 && (w.faulty.is_empty() || w.faulty == n) {
        match pick(0, 3) {
            0 => {}
            1 => return fault(EINTR),
            2 => return fault(13),
            _ => return fault(28),
        }
    }
    let i = match file(&n) {
        Some(_) if flags & O_EXCL != 0 => return fail(17),
        Some(i) => i,
        None if flags & O_CREAT == 0 => return fail(2),
        None => {
            w.disk.push((n, vec![]));
            w.disk.len() - 1
        }
    };
    if flags & O_TRUNC != 0 {
        w.disk[i].1.clear();
    }
    w.open.push(Some((i, 0, flags & O_APPEND != 0, flags & O_ACCMODE < O_WRONLY)));
    100 + w.open.len() as c_int - 1
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    let w = world();
    if w.on && (fd == 1 || fd == 2) {
        w.out[fd as usize - 1].extend_from_slice(std::slice::from_raw_parts(b as *const u8, n));
        return n as isize;
    }
    if fd < 100 {
        return syscall(1, fd as i64, b, n) as isize;
    }
    let k = (fd - 100) as usize;
    if k >= w.open.len() || w.open[k].map_or(true, |x| x.3) {
        return fail(9) as isize;
    }
    let mut len = n;
    if w.left > 0 && n > 0 {
        match pick(0, 4) {
            0 => {}
            1 => return fault(EINTR) as isize,
            2 => return fault(28) as isize,
            3 => {
                w.left -= 1;
                w.fault = w.fault.or(Some(0));
                return 0;
            }
            _ => {
                // a short write
                w.left -= 1;
                len = if w.long { [1, n / 3 + 1, n - 1][pick(0, 2) as usize] } else { pick(1, n as u64) as usize };
                len = len.min(n).max(1);
            }
        }
    }
    let (i, at, app, _) = w.open[k].unwrap();
    let f = &mut w.disk[i].1;
    let at = if app { f.len() } else { at };
    let src = std::slice::from_raw_parts(b as *const u8, len);
    while f.len() < at {
        f.push(0);
    }
    let over = (f.len() - at).min(len);
    f[at..at + over].copy_from_slice(&src[..over]);
    f.extend_from_slice(&src[over..]);
    w.open[k] = Some((i, at + len, app, false));
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const [usize; 2], n: c_int) -> isize {
    if fd < 100 && !world().on {
        return syscall(20, fd as i64, v, n as i64) as isize;
    }
    // as much as the first part
    for i in 0..n as usize {
        let [b, len] = *v.add(i);
        if len > 0 {
            return write(fd, b as *const c_void, len);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    let w = world();
    if fd < 100 {
        return syscall(0, fd as i64, b, n) as isize;
    }
    let k = (fd - 100) as usize;
    match w.open.get(k) {
        Some(Some((i, at, app, r))) => {
            let f = &w.disk[*i].1;
            let len = f.len().saturating_sub(*at).min(n);
            std::slice::from_raw_parts_mut(b as *mut u8, len).copy_from_slice(&f[*at..*at + len]);
            w.open[k] = Some((*i, *at + len, *app, *r));
            len as isize
        }
        _ => fail(9) as isize,
    }
}
/// The sizes of files are not known.
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, flags: c_int, mask: u32, buf: *mut c_void) -> c_int {
    if fd < 100 && !world().on {
        return syscall(332, fd as i64, p, flags as i64, mask as i64, buf) as c_int;
    }
    fail(38)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut c_void) -> c_int {
    if fd < 100 && !world().on {
        return syscall(5, fd as i64, buf) as c_int;
    }
    fail(5)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let w = world();
    if fd < 100 {
        return syscall(3, fd as i64) as c_int;
    }
    w.open[(fd - 100) as usize] = None;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: i64) -> c_int {
    if fd < 100 {
        return syscall(72, fd as i64, cmd as i64, arg) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let w = world();
    if w.left > 0 && flag() {
        return fault(18);
    }
    match file(&name(a)) {
        None => fail(2),
        Some(i) => {
            let n = name(b);
            let content = w.disk[i].1.clone();
            w.disk.retain(|x| x.0 != n);
            for x in w.disk.iter_mut().filter(|x| x.1 == content && x.0 == name(a)) {
                x.0 = n.clone();
            }
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let n = name(a);
    world().disk.retain(|x| x.0 != n);
    0
}
unsafe fn sync() -> c_int {
    let w = world();
    if w.left > 0 && flag() {
        return fault(5);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(_: c_int) -> c_int {
    sync()
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(_: c_int) -> c_int {
    sync()
}

/// The texts of errors.
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(_: c_int, b: *mut c_char, n: usize) -> c_int {
    for (i, c) in b"an error\0".iter().enumerate().take(n) {
        *b.add(i) = *c as c_char;
    }
    0
}
