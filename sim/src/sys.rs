//! The few system calls the harness needs, without a libc crate.
use std::arch::asm;

pub const SYS_FUTEX: i64 = 202;
pub const SYS_GETRANDOM: i64 = 318;

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn alarm(s: u32) -> u32;
    fn sched_setaffinity(pid: i32, len: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, len: usize, mask: *mut u64) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    pub fn __errno_location() -> *mut i32;
    fn personality(p: u64) -> i32;
    fn getppid() -> i32;
    fn mallopt(param: i32, value: i32) -> i32;
}

#[inline(always)]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe {
        raw6(SYS_FUTEX, addr as i64, 128, val as i64, 0, 0, 0);
    }
}
pub fn futex_wake(addr: *const u32, n: i64) {
    unsafe {
        raw6(SYS_FUTEX, addr as i64, 129, n, 0, 0, 0);
    }
}
/// Memory shared with forked children.
pub fn shared(len: usize) -> *mut u8 {
    unsafe {
        // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
        let p = mmap(std::ptr::null_mut(), len, 3, 0x01 | 0x20 | 0x4000, -1, 0);
        if p as isize == -1 {
            crate::die("mmap failed");
        }
        p
    }
}
pub fn unshare_mem(p: *mut u8, len: usize) {
    unsafe {
        munmap(p, len);
    }
}
pub fn limit_cpu(secs: u64, wall: u32) {
    unsafe {
        setrlimit(0, &[secs, secs + 1]);
        setrlimit(4, &[0, 0]); // no core files
        alarm(wall);
    }
}
pub fn die_with_parent(parent: i32) {
    unsafe {
        prctl(1, 9, 0, 0, 0);
        if getppid() != parent {
            _exit(3);
        }
    }
}
pub fn cpus() -> Vec<usize> {
    let mut m = [0u64; 16];
    unsafe {
        if sched_getaffinity(0, 128, m.as_mut_ptr()) <= 0 {
            // glibc returns 0 on success
        }
    }
    let v: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
    if v.is_empty() {
        vec![0]
    } else {
        v
    }
}
pub fn pin(cpu: usize) {
    let mut m = [0u64; 16];
    m[cpu / 64] |= 1 << (cpu % 64);
    unsafe {
        sched_setaffinity(0, 128, m.as_ptr());
    }
}
pub fn silence_stderr() {
    unsafe {
        let fd = raw6(2, b"/dev/null\0".as_ptr() as i64, 1, 0, 0, 0, 0) as i32;
        if fd >= 0 {
            dup2(fd, 2);
        }
    }
}
/// Fixed address-space layout, so that addresses cannot vary between executions.
pub fn no_aslr() {
    unsafe {
        let cur = personality(0xffffffff);
        if cur >= 0 && cur & 0x0040000 == 0 && std::env::var_os("H3SIM_NOASLR").is_none() {
            if personality(cur as u64 | 0x0040000) >= 0 {
                use std::os::unix::process::CommandExt;
                let exe = std::env::current_exe().unwrap_or_else(|_| crate::die("current_exe"));
                let _ = std::process::Command::new(exe)
                    .args(std::env::args_os().skip(1))
                    .env("H3SIM_NOASLR", "1")
                    .exec();
            }
        }
    }
}
/// One malloc arena: heap addresses must not depend on which thread asks.
pub fn one_arena() {
    unsafe {
        mallopt(-8, 1);
    }
}
