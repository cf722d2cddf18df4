//! C library entry points that std and memmap call, defined here so that the linker takes these.
//! Calls on simulated paths, descriptors and mappings go to `vfs`; everything else goes straight
//! to the kernel.

use crate::vfs::{self, active, is_sim_path, sim};
use libc::{c_char, c_int, c_void, iovec, mode_t, off64_t, size_t, ssize_t};
use std::ffi::CStr;

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

unsafe fn ret(r: libc::c_long) -> libc::c_long {
    // libc::syscall already translates errors into errno
    r
}

/// Names are text inside the simulator: what is not UTF-8 (and white space, which would confuse
/// plans) becomes a character for private use.
pub fn decode(b: &[u8]) -> String {
    let private = |c: u8| char::from_u32(0xf700 + c as u32).unwrap();
    let mut out = String::new();
    let mut rest = b;
    while !rest.is_empty() {
        let (good, bad) = match std::str::from_utf8(rest) {
            Ok(s) => (s, 0),
            Err(e) => (std::str::from_utf8(&rest[..e.valid_up_to()]).unwrap(), 1),
        };
        for c in good.chars() {
            out.push(if c.is_ascii_whitespace() { private(c as u8) } else { c });
        }
        if bad == 1 {
            out.push(private(rest[good.len()]));
        }
        rest = &rest[good.len() + bad..];
    }
    out
}

pub fn encode(s: &str) -> Vec<u8> {
    let mut out = vec![];
    for c in s.chars() {
        match c as u32 {
            0xf701..=0xf7ff => out.push((c as u32 - 0xf700) as u8),
            _ => {
                let mut b = [0; 4];
                out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
            }
        }
    }
    out
}

/// simulated path of (dirfd, path), if it is one, without superfluous components
unsafe fn simpath(dirfd: c_int, p: *const c_char) -> Option<String> {
    let s = path_at(dirfd, p);
    if s.is_some() {
        vfs::switch();
    }
    s
}

unsafe fn path_at(dirfd: c_int, p: *const c_char) -> Option<String> {
    if !active() || p.is_null() {
        return None;
    }
    let b = CStr::from_ptr(p).to_bytes();
    if is_sim_path(b) {
        return Some(vfs::followed(vfs::normal(&decode(b))));
    }
    if b.starts_with(b"/") {
        return None;
    }
    let base = if dirfd == libc::AT_FDCWD {
        sim().cwd.clone()?
    } else if dirfd >= 0 && sim().is_fd(dirfd) {
        sim().path_of(dirfd).to_string()
    } else {
        return None;
    };
    if b.is_empty() {
        // names nothing
        return Some(String::new());
    }
    Some(vfs::followed(vfs::normal(&format!("{}/{}", base, decode(b)))))
}

/// is this itself a symbolic link?
unsafe fn is_link(dirfd: c_int, p: *const c_char) -> bool {
    let b = if p.is_null() { return false } else { CStr::from_ptr(p).to_bytes() };
    active() && dirfd == libc::AT_FDCWD && is_sim_path(b) && vfs::is_link(&vfs::normal(&decode(b)))
}

fn simfd(fd: c_int) -> bool {
    let is = active() && fd >= 0 && sim().is_fd(fd);
    if is {
        vfs::switch();
    }
    is
}

macro_rules! out {
    ($r:expr, $t:ty) => {
        match $r {
            Ok(v) => v as $t,
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    };
}

unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match simpath(dirfd, p) {
        Some(s) => out!(sim().sys_open(&s, flags), c_int),
        None => ret(libc::syscall(libc::SYS_openat, dirfd, p, flags, mode)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if simfd(fd) {
        return sim().sys_close(fd);
    }
    ret(libc::syscall(libc::SYS_close, fd)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if simfd(fd) {
        let s = std::slice::from_raw_parts(b as *const u8, n);
        return out!(sim().sys_write(fd, s, None), ssize_t);
    }
    ret(libc::syscall(libc::SYS_write, fd, b, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if simfd(fd) {
        let s = std::slice::from_raw_parts(b as *const u8, n);
        return out!(sim().sys_write(fd, s, Some(off as u64)), ssize_t);
    }
    ret(libc::syscall(libc::SYS_pwrite64, fd, b, n, off)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if simfd(fd) {
        let mut all: Vec<u8> = vec![];
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len > 0 {
                all.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
            }
        }
        return out!(sim().sys_write(fd, &all, None), ssize_t);
    }
    ret(libc::syscall(libc::SYS_writev, fd, v, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if simfd(fd) {
        return out!(sim().sys_read(fd, b as *mut u8, n, None), ssize_t);
    }
    ret(libc::syscall(libc::SYS_read, fd, b, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    if simfd(fd) {
        return out!(sim().sys_read(fd, b as *mut u8, n, Some(off as u64)), ssize_t);
    }
    ret(libc::syscall(libc::SYS_pread64, fd, b, n, off)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if simfd(fd) {
        if n == 0 {
            return 0;
        }
        let x = &*v;
        return out!(sim().sys_read(fd, x.iov_base as *mut u8, x.iov_len, None), ssize_t);
    }
    ret(libc::syscall(libc::SYS_readv, fd, v, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, w: c_int) -> off64_t {
    if simfd(fd) {
        return out!(sim().sys_lseek(fd, off, w), off64_t);
    }
    ret(libc::syscall(libc::SYS_lseek, fd, off, w)) as off64_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, w: c_int) -> off64_t {
    lseek64(fd, off, w)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if simfd(fd) {
        return out!(sim().sys_ftruncate(fd, len as u64).map(|_| 0), c_int);
    }
    ret(libc::syscall(libc::SYS_ftruncate, fd, len)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if simfd(fd) {
        return out!(sim().sys_sync(fd).map(|_| 0), c_int);
    }
    ret(libc::syscall(libc::SYS_fsync, fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if simfd(fd) {
        return out!(sim().sys_sync(fd).map(|_| 0), c_int);
    }
    ret(libc::syscall(libc::SYS_fdatasync, fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if simfd(fd) {
        return 0;
    }
    ret(libc::syscall(libc::SYS_flock, fd, op)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if simfd(fd) {
        return match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => out!(sim().sys_dup(fd), c_int),
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_GETFL => libc::O_RDWR,
            _ => 0,
        };
    }
    ret(libc::syscall(libc::SYS_fcntl, fd, cmd, arg)) as c_int
}

// ---- metadata ------------------------------------------------------------------------------

unsafe fn fill_statx(b: *mut libc::statx, ino: u64, dir: bool, len: u64, time: u64) {
    std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::statx>());
    (*b).stx_mask = libc::STATX_BASIC_STATS;
    (*b).stx_blksize = 4096;
    (*b).stx_nlink = 1;
    (*b).stx_mode = if dir { libc::S_IFDIR as u16 | 0o755 } else { libc::S_IFREG as u16 | 0o644 };
    (*b).stx_ino = ino;
    (*b).stx_size = len;
    (*b).stx_blocks = (len + 511) / 512;
    let mut t = (*b).stx_mtime;
    t.tv_sec = (time / 1_000_000_000) as i64;
    t.tv_nsec = (time % 1_000_000_000) as u32;
    (*b).stx_mtime = t;
    (*b).stx_ctime = t;
    (*b).stx_atime = t;
}

unsafe fn fill_stat(b: *mut libc::stat64, ino: u64, dir: bool, len: u64, time: u64) {
    std::ptr::write_bytes(b as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*b).st_mode = if dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    (*b).st_ino = ino;
    (*b).st_nlink = 1;
    (*b).st_size = len as i64;
    (*b).st_blksize = 4096;
    (*b).st_blocks = ((len + 511) / 512) as i64;
    (*b).st_mtime = (time / 1_000_000_000) as libc::time_t;
    (*b).st_mtime_nsec = (time % 1_000_000_000) as i64;
    (*b).st_ctime = (*b).st_mtime;
    (*b).st_ctime_nsec = (*b).st_mtime_nsec;
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: u32, b: *mut libc::statx) -> c_int {
    if active() && simfd(d) && !p.is_null() && *p == 0 {
        return match sim().sys_fstat(d) {
            Ok((i, dir, len, time)) => {
                fill_statx(b, i, dir, len, time);
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    match simpath(d, p) {
        Some(s) => match sim().sys_stat(&s) {
            Ok((i, dir, len, time)) => {
                fill_statx(b, i, dir, len, time);
                if flags & libc::AT_SYMLINK_NOFOLLOW != 0 && is_link(d, p) {
                    (*b).stx_mode = libc::S_IFLNK as u16 | 0o777;
                    (*b).stx_size = 17;
                }
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        },
        None => ret(libc::syscall(libc::SYS_statx, d, p, flags, mask, b)) as c_int,
    }
}

unsafe fn do_stat(s: &str, b: *mut libc::stat64) -> c_int {
    match sim().sys_stat(s) {
        Ok((i, dir, len, time)) => {
            fill_stat(b, i, dir, len, time);
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    match simpath(libc::AT_FDCWD, p) {
        Some(s) => do_stat(&s, b),
        None => ret(libc::syscall(libc::SYS_stat, p, b)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    match simpath(libc::AT_FDCWD, p) {
        Some(s) => {
            let r = do_stat(&s, b);
            if r == 0 && is_link(libc::AT_FDCWD, p) {
                (*b).st_mode = libc::S_IFLNK | 0o777;
                (*b).st_size = 17;
            }
            r
        }
        None => ret(libc::syscall(libc::SYS_lstat, p, b)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut libc::stat64) -> c_int {
    if simfd(fd) {
        return match sim().sys_fstat(fd) {
            Ok((i, dir, len, time)) => {
                fill_stat(b, i, dir, len, time);
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    ret(libc::syscall(libc::SYS_fstat, fd, b)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, b: *mut libc::stat64, fl: c_int) -> c_int {
    match simpath(d, p) {
        Some(s) => do_stat(&s, b),
        None => ret(libc::syscall(libc::SYS_newfstatat, d, p, b, fl)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    match simpath(libc::AT_FDCWD, p) {
        Some(s) => out!(sim().sys_stat(&s).map(|_| 0), c_int),
        None => ret(libc::syscall(libc::SYS_access, p, m)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    match simpath(libc::AT_FDCWD, p) {
        Some(s) => out!(sim().sys_mkdir(&s).map(|_| 0), c_int),
        None => ret(libc::syscall(libc::SYS_mkdir, p, m)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match simpath(libc::AT_FDCWD, p) {
        Some(s) => out!(sim().sys_unlink(&s, false).map(|_| 0), c_int),
        None => ret(libc::syscall(libc::SYS_unlink, p)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    match simpath(d, p) {
        Some(s) => out!(sim().sys_unlink(&s, fl & libc::AT_REMOVEDIR != 0).map(|_| 0), c_int),
        None => ret(libc::syscall(libc::SYS_unlinkat, d, p, fl)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    match simpath(libc::AT_FDCWD, p) {
        Some(s) => out!(sim().sys_unlink(&s, true).map(|_| 0), c_int),
        None => ret(libc::syscall(libc::SYS_rmdir, p)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (simpath(libc::AT_FDCWD, a), simpath(libc::AT_FDCWD, b)) {
        (Some(x), Some(y)) => out!(sim().sys_rename(&x, &y).map(|_| 0), c_int),
        (None, None) => ret(libc::syscall(libc::SYS_rename, a, b)) as c_int,
        _ => {
            set_errno(libc::EXDEV);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, resolved: *mut c_char) -> *mut c_char {
    if let Some(s) = simpath(libc::AT_FDCWD, p) {
        return match sim().sys_stat(&s) {
            Ok((i, _, _, _)) => {
                let out = encode(sim().ino_path(i).unwrap_or(""));
                let buf = if resolved.is_null() { libc::malloc(out.len() + 1) as *mut c_char } else { resolved };
                std::ptr::copy_nonoverlapping(out.as_ptr(), buf as *mut u8, out.len());
                *buf.add(out.len()) = 0;
                buf
            }
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        };
    }
    // the harness itself never needs symbolic links resolved
    let b = CStr::from_ptr(p).to_bytes_with_nul();
    let buf = if resolved.is_null() { libc::malloc(b.len()) as *mut c_char } else { resolved };
    std::ptr::copy_nonoverlapping(b.as_ptr(), buf as *mut u8, b.len());
    buf
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if active() {
        if let Some(d) = &sim().cwd {
            let d = encode(d);
            if b.is_null() || n <= d.len() {
                set_errno(libc::ERANGE);
                return std::ptr::null_mut();
            }
            std::ptr::copy_nonoverlapping(d.as_ptr(), b as *mut u8, d.len());
            *b.add(d.len()) = 0;
            return b;
        }
    }
    if ret(libc::syscall(libc::SYS_getcwd, b, n)) < 0 {
        return std::ptr::null_mut();
    }
    b
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if simfd(fd) {
        return 0;
    }
    ret(libc::syscall(libc::SYS_fchmod, fd, m)) as c_int
}

// std falls back to reading and writing when the kernel cannot copy by itself
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(i: c_int, io: *mut off64_t, o: c_int, oo: *mut off64_t, n: size_t, fl: libc::c_uint) -> ssize_t {
    if simfd(i) || simfd(o) {
        set_errno(libc::EXDEV);
        return -1;
    }
    ret(libc::syscall(libc::SYS_copy_file_range, i, io, o, oo, n, fl)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if simfd(i) || simfd(o) {
        set_errno(libc::EINVAL);
        return -1;
    }
    ret(libc::syscall(libc::SYS_sendfile, o, i, off, n)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    sendfile64(o, i, off, n)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if let Some(s) = simpath(libc::AT_FDCWD, p) {
        return out!(sim().sys_stat(&s).map(|_| 0), c_int);
    }
    ret(libc::syscall(libc::SYS_chmod, p, m)) as c_int
}

// ---- mappings ------------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, len: size_t, prot: c_int, fl: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    if simfd(fd) {
        return match sim().sys_mmap(len, prot, fl, fd, off) {
            Ok(p) => p as *mut c_void,
            Err(e) => {
                set_errno(e);
                libc::MAP_FAILED
            }
        };
    }
    ret(libc::syscall(libc::SYS_mmap, a, len, prot, fl, fd, off)) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, len: size_t, prot: c_int, fl: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    mmap(a, len, prot, fl, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, len: size_t) -> c_int {
    if active() && sim().is_map(a as usize) {
        sim().sys_munmap(a as usize);
        return 0;
    }
    ret(libc::syscall(libc::SYS_munmap, a, len)) as c_int
}

// ---- directory listing ---------------------------------------------------------------------

#[repr(C)]
struct SimDir {
    magic: u64,
    entries: Vec<(String, u64, bool)>,
    pos: usize,
    fd: c_int,
    ent: libc::dirent64,
}
const DIR_MAGIC: u64 = 0xd1d1_f1a7_da7a_5555;

#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    match simpath(libc::AT_FDCWD, p) {
        Some(s) => match sim().list_dir(&s) {
            Ok(entries) => {
                Box::into_raw(Box::new(SimDir { magic: DIR_MAGIC, entries, pos: 0, fd: -1, ent: std::mem::zeroed() })) as *mut c_void
            }
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        },
        None => {
            set_errno(libc::ENOSYS);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    let d = &mut *(d as *mut SimDir);
    assert!(d.magic == DIR_MAGIC);
    if d.pos >= d.entries.len() {
        return std::ptr::null_mut();
    }
    let (n, i, dir) = d.entries[d.pos].clone();
    d.pos += 1;
    d.ent.d_ino = i;
    d.ent.d_type = if dir { libc::DT_DIR } else { libc::DT_REG };
    let b = encode(&n);
    for k in 0..b.len() {
        d.ent.d_name[k] = b[k] as c_char;
    }
    d.ent.d_name[b.len()] = 0;
    &mut d.ent
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if !simfd(fd) {
        set_errno(libc::ENOSYS);
        return std::ptr::null_mut();
    }
    let s = sim().path_of(fd);
    match sim().list_dir(&s) {
        Ok(entries) => Box::into_raw(Box::new(SimDir { magic: DIR_MAGIC, entries, pos: 0, fd, ent: std::mem::zeroed() })) as *mut c_void,
        Err(e) => {
            set_errno(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let d = Box::from_raw(d as *mut SimDir);
    if d.fd >= 0 {
        close(d.fd);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    (*(d as *mut SimDir)).fd
}

// ---- time and chance -------------------------------------------------------------------------

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    if active() {
        let wall = id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE;
        let n = sim().now(wall);
        (*t).tv_sec = (n / 1_000_000_000) as libc::time_t;
        (*t).tv_nsec = (n % 1_000_000_000) as libc::c_long;
        return 0;
    }
    ret(libc::syscall(libc::SYS_clock_gettime, id, t)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, fl: c_int, t: *const libc::timespec, left: *mut libc::timespec) -> c_int {
    if active() {
        sim().sleep((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64);
        return 0;
    }
    if libc::syscall(libc::SYS_clock_nanosleep, id, fl, t, left) == 0 {
        0
    } else {
        *libc::__errno_location()
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, left: *mut libc::timespec) -> c_int {
    if active() {
        sim().sleep((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64);
        return 0;
    }
    ret(libc::syscall(libc::SYS_nanosleep, t, left)) as c_int
}
/// Always the same: hash tables are in the same order in every process.
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, _fl: libc::c_uint) -> ssize_t {
    for k in 0..n {
        *(b as *mut u8).add(k) = (k as u8).wrapping_mul(37) ^ 0x5a;
    }
    n as ssize_t
}

pub fn link_me() {
    // referenced from main so that the linker keeps this module
    let _ = vfs::ROOT;
}
