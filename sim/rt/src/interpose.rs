//! Link-time interposition of the C library entry points through which time and randomness reach
//! the program (std::time, chrono, HashMap seeds, rand, uuid): inside the simulation they answer
//! from the simulator, outside they behave as usual (randomness: a fixed stream).
use std::cell::Cell;
use std::sync::atomic::AtomicU64;
use std::sync::atomic::Ordering;

use crate::world::current_world;
use crate::world::in_sim;

pub fn real_now() -> u64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe {
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts);
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

/// processor time this process has used
pub fn cpu_now() -> u64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe {
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

thread_local! {
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

/// # Safety
/// called by libc users with a valid timespec pointer
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if in_sim() && !BUSY.with(|b| b.replace(true)) {
        let r = current_world().map(|(w, _)| {
            let g = w.lock();
            if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
                g.wall_ns()
            } else {
                1_000_000_000_000 + g.now
            }
        });
        BUSY.with(|b| b.set(false));
        if let Some(ns) = r {
            (*ts).tv_sec = (ns / 1_000_000_000) as i64;
            (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

static CTR: AtomicU64 = AtomicU64::new(1);

fn fill(b: &mut [u8]) {
    if in_sim() && !BUSY.with(|x| x.replace(true)) {
        if let Some((w, me)) = current_world() {
            w.fill_entropy(me, b);
            BUSY.with(|x| x.set(false));
            return;
        }
        BUSY.with(|x| x.set(false));
    }
    let mut r = crate::rng::Rng::new(crate::rng::mix(CTR.fetch_add(1, Ordering::Relaxed)));
    r.fill(b);
}

/// # Safety
/// buf must point to len writable bytes
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    fill(std::slice::from_raw_parts_mut(buf as *mut u8, len));
    len as libc::ssize_t
}

/// # Safety
/// buf must point to len writable bytes
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut libc::c_void, len: libc::size_t) -> libc::c_int {
    fill(std::slice::from_raw_parts_mut(buf as *mut u8, len));
    0
}

/// Crates like getrandom issue system calls through this function; everything but randomness is
/// passed on as it is.
///
/// # Safety
/// as for the system call
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: libc::c_long,
    a1: libc::c_long,
    a2: libc::c_long,
    a3: libc::c_long,
    a4: libc::c_long,
    a5: libc::c_long,
    a6: libc::c_long,
) -> libc::c_long {
    if n == libc::SYS_getrandom {
        fill(std::slice::from_raw_parts_mut(a1 as *mut u8, a2 as usize));
        return a2;
    }
    let r: libc::c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a1,
        in("rsi") a2,
        in("rdx") a3,
        in("r10") a4,
        in("r8") a5,
        in("r9") a6,
        lateout("rcx") _,
        lateout("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as libc::c_int;
        return -1;
    }
    r
}

/// force the linker to keep this object
pub fn init() {
    #[cfg(target_arch = "x86_64")]
    std::hint::black_box(syscall as *const () as usize);
    std::hint::black_box(clock_gettime as *const () as usize);
    std::hint::black_box(getrandom as *const () as usize);
    std::hint::black_box(getentropy as *const () as usize);
    std::hint::black_box(statx as *const () as usize);
    std::hint::black_box(sched_getaffinity as *const () as usize);
}

/// Path-based file status (Path::exists, Path::metadata): inside the simulation from the simulated disk.
///
/// # Safety
/// path must be a C string, buf a valid statx buffer
#[no_mangle]
pub unsafe extern "C" fn statx(
    dirfd: libc::c_int,
    path: *const libc::c_char,
    flags: libc::c_int,
    mask: libc::c_uint,
    buf: *mut libc::statx,
) -> libc::c_int {
    if in_sim() && dirfd == libc::AT_FDCWD && !path.is_null() && *path != 0 {
        use std::os::unix::ffi::OsStrExt;
        let p = std::path::Path::new(std::ffi::OsStr::from_bytes(
            std::ffi::CStr::from_ptr(path).to_bytes(),
        ));
        // libraries look there for the number of processors, some while they hold a real lock
        if p.starts_with("/proc") || p.starts_with("/sys") {
            *libc::__errno_location() = libc::ENOENT;
            return -1;
        }
        return match crate::fs::stat(p) {
            Ok(m) => {
                std::ptr::write_bytes(buf, 0, 1);
                (*buf).stx_mask = libc::STATX_BASIC_STATS;
                (*buf).stx_blksize = 4096;
                (*buf).stx_nlink = 1;
                (*buf).stx_mode = if m.dir {
                    (libc::S_IFDIR | 0o755) as u16
                } else {
                    (libc::S_IFREG | 0o644) as u16
                };
                (*buf).stx_ino = m.ino;
                (*buf).stx_size = m.len;
                0
            }
            Err(e) => {
                *libc::__errno_location() = e.raw_os_error().unwrap_or(libc::EIO);
                -1
            }
        };
    }
    libc::syscall(libc::SYS_statx, dirfd, path, flags, mask, buf) as libc::c_int
}

/// The number of processors is a part of the simulated machine: eight.
///
/// # Safety
/// mask must be valid for size bytes
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(
    pid: libc::pid_t,
    size: libc::size_t,
    mask: *mut libc::cpu_set_t,
) -> libc::c_int {
    if in_sim() && size > 0 {
        std::ptr::write_bytes(mask as *mut u8, 0, size);
        *(mask as *mut u8) = 0xff;
        return 0;
    }
    let r = libc::syscall(libc::SYS_sched_getaffinity, pid, size, mask);
    if r < 0 {
        -1
    } else {
        0
    }
}
