//! The few libc entry points the simulator needs.
use std::os::raw::{c_char, c_int, c_long, c_void};
extern "C" {
    pub fn fork() -> c_int;
    pub fn pipe(fds: *mut c_int) -> c_int;
    pub fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize;
    pub fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
    pub fn close(fd: c_int) -> c_int;
    pub fn dup2(a: c_int, b: c_int) -> c_int;
    pub fn open(p: *const c_char, flags: c_int, ...) -> c_int;
    pub fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    pub fn _exit(c: c_int) -> !;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    pub fn munmap(a: *mut c_void, len: usize) -> c_int;
    pub fn mprotect(a: *mut c_void, len: usize, prot: c_int) -> c_int;
    pub fn __errno_location() -> *mut c_int;
    fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
    fn prctl(op: c_int, a: usize, b: usize, c: usize, d: usize) -> c_int;
    fn poll(p: *mut [i32; 2], n: u64, ms: c_int) -> c_int;
}
pub const SIGABRT: i32 = 6;
pub const SIGKILL: i32 = 9;

pub fn quiet_process() {
    unsafe {
        setrlimit(4, &[0, 0]); // no core files
        prctl(1, 9, 0, 0, 0); // die with the parent
    }
}
pub fn stderr_to_null() {
    unsafe {
        let fd = open(b"/dev/null\0".as_ptr() as *const c_char, 2);
        if fd >= 0 {
            dup2(fd, 2);
            close(fd);
        }
    }
}
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr() as *const c_void, b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    /// no result within the wall-clock backstop (never used as an oracle)
    Timeout,
}
pub struct Child {
    pub end: End,
    pub out: Vec<u8>,
}
/// Runs f in a forked copy of this (single-threaded) process; f gets the fd for its result.
pub fn in_child<F: FnOnce(i32)>(f: F) -> Child {
    unsafe {
        let mut fds = [0i32; 2];
        assert!(pipe(fds.as_mut_ptr()) == 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            close(fds[0]);
            prctl(1, 9, 0, 0, 0);
            f(fds[1]);
            _exit(0);
        }
        close(fds[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 65536];
        let mut end = None;
        loop {
            let mut p = [fds[0], 1];
            let r = poll(&mut p, 1, 120_000);
            if r == 0 {
                kill(pid, SIGKILL);
                end = Some(End::Timeout);
                break;
            }
            if r < 0 {
                continue;
            }
            let n = read(fds[0], buf.as_mut_ptr() as *mut c_void, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        let end = end.unwrap_or(if st & 0x7f == 0 { End::Exit((st >> 8) & 0xff) } else { End::Signal(st & 0x7f) });
        Child { end, out }
    }
}
