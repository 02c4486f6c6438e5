//! Global allocator of the simulator.
//!
//! * counts allocations and frees made while the audio side is running,
//! * puts a canary behind every allocation and checks it when the memory is freed,
//! * poisons freed memory, keeps it in quarantine (so that it is not reused) and checks the poison
//!   when it leaves quarantine, which detects reads (as absurd values) and writes after free.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;

pub const POISON: u8 = 0xDB;
const CANARY: u8 = 0xC9;
/// First canary byte of memory allocated by the code under test
const CANARY_SUT: u8 = 0xCA;
const TAIL: usize = 32;
const QCAP: usize = 1 << 15;
const QBYTES: usize = 48 << 20;

pub static AUDIO: AtomicBool = AtomicBool::new(false);
pub static AUDIO_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static AUDIO_FREES: AtomicU64 = AtomicU64::new(0);
/// Set while the code under test is running
pub static SUT: AtomicBool = AtomicBool::new(false);
/// Bytes allocated by the code under test which are not freed yet
pub static SUT_LIVE: AtomicUsize = AtomicUsize::new(0);
pub static SUT_COUNT: AtomicUsize = AtomicUsize::new(0);
static QUARANTINE_ON: AtomicBool = AtomicBool::new(false);
static CORRUPT_CANARY: AtomicU64 = AtomicU64::new(0);
static CORRUPT_POISON: AtomicU64 = AtomicU64::new(0);

/// Print where the audio side allocates or frees (for debugging)
pub static TRACE: AtomicBool = AtomicBool::new(false);
#[cold]
fn trace() {
    if TRACE.load(Relaxed) {
        pause(|| eprintln!("{}", std::backtrace::Backtrace::force_capture()));
    }
}
struct Quarantine {
    items: [(usize, usize, usize); QCAP],
    head: usize,
    len: usize,
    bytes: usize,
}
static mut Q: Quarantine = Quarantine {
    items: [(0, 0, 0); QCAP],
    head: 0,
    len: 0,
    bytes: 0,
};

fn full(l: Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + TAIL, l.align()) }
}
unsafe fn release_oldest(q: &mut Quarantine) {
    unsafe {
        let (p, size, align) = q.items[q.head];
        q.head = (q.head + 1) % QCAP;
        q.len -= 1;
        q.bytes -= size;
        let ptr = p as *mut u8;
        for i in 0..size {
            if *ptr.add(i) != POISON {
                CORRUPT_POISON.fetch_add(1, Relaxed);
                break;
            }
        }
        System.dealloc(ptr, full(Layout::from_size_align_unchecked(size, align)));
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            if AUDIO.load(Relaxed) {
                AUDIO_ALLOCS.fetch_add(1, Relaxed);
                trace();
            }
            let p = System.alloc(full(l));
            if !p.is_null() {
                std::ptr::write_bytes(p.add(l.size()), CANARY, TAIL);
                if SUT.load(Relaxed) {
                    *p.add(l.size()) = CANARY_SUT;
                    SUT_LIVE.fetch_add(l.size(), Relaxed);
                    SUT_COUNT.fetch_add(1, Relaxed);
                }
            }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if AUDIO.load(Relaxed) {
                AUDIO_FREES.fetch_add(1, Relaxed);
                trace();
            }
            match *p.add(l.size()) {
                CANARY => (),
                CANARY_SUT => {
                    SUT_LIVE.fetch_sub(l.size(), Relaxed);
                    SUT_COUNT.fetch_sub(1, Relaxed);
                }
                _ => {
                    CORRUPT_CANARY.fetch_add(1, Relaxed);
                }
            }
            for i in 1..TAIL {
                if *p.add(l.size() + i) != CANARY {
                    CORRUPT_CANARY.fetch_add(1, Relaxed);
                    break;
                }
            }
            if QUARANTINE_ON.load(Relaxed) && l.size() <= (1 << 20) {
                std::ptr::write_bytes(p, POISON, l.size());
                let q = &mut *std::ptr::addr_of_mut!(Q);
                while q.len >= QCAP || (q.len > 0 && q.bytes + l.size() > QBYTES) {
                    release_oldest(q);
                }
                let at = (q.head + q.len) % QCAP;
                q.items[at] = (p as usize, l.size(), l.align());
                q.len += 1;
                q.bytes += l.size();
            } else {
                System.dealloc(p, full(l));
            }
        }
    }
}
/// Start keeping freed memory. Only while the process is single threaded.
pub fn quarantine_start() {
    AUDIO_ALLOCS.store(0, Relaxed);
    AUDIO_FREES.store(0, Relaxed);
    CORRUPT_CANARY.store(0, Relaxed);
    CORRUPT_POISON.store(0, Relaxed);
    QUARANTINE_ON.store(true, Relaxed);
}
/// Release everything kept. Returns (canary violations, writes after free).
pub fn quarantine_end() -> (u64, u64) {
    QUARANTINE_ON.store(false, Relaxed);
    unsafe {
        let q = &mut *std::ptr::addr_of_mut!(Q);
        while q.len > 0 {
            release_oldest(q);
        }
    }
    corruption()
}
pub fn corruption() -> (u64, u64) {
    (CORRUPT_CANARY.load(Relaxed), CORRUPT_POISON.load(Relaxed))
}
/// Run harness code which may allocate in the middle of the code under test.
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    let was = AUDIO.swap(false, Relaxed);
    let was_sut = SUT.swap(false, Relaxed);
    let r = f();
    AUDIO.store(was, Relaxed);
    SUT.store(was_sut, Relaxed);
    r
}
/// Run code under test
pub fn sut<T>(f: impl FnOnce() -> T) -> T {
    let was = SUT.swap(true, Relaxed);
    let r = f();
    SUT.store(was, Relaxed);
    r
}

/// Run code under test which belongs on the audio side
pub fn sut_audio<T>(f: impl FnOnce() -> T) -> T {
    let was = AUDIO.swap(true, Relaxed);
    let r = sut(f);
    AUDIO.store(was, Relaxed);
    r
}
/// After a panic
pub fn reset_flags() {
    AUDIO.store(false, Relaxed);
    SUT.store(false, Relaxed);
}
