//! Test memory: slices fenced by inaccessible pages and canaries, or exact heap blocks (for ASan).
use crate::rng::hash3;
use std::alloc::{alloc, dealloc, Layout};

pub const PAGE: usize = 4096;
pub const CANARY: u8 = 0xA5;
const MARGIN: usize = 512;

pub struct Region {
    base: *mut u8,
    total: usize,
}
unsafe impl Send for Region {}
unsafe impl Sync for Region {}

#[cfg(not(target_arch = "wasm32"))]
impl Region {
    /// `cap` accessible bytes (rounded up to pages) between two inaccessible pages
    pub fn new(cap: usize) -> Region {
        Region::near(cap, 0)
    }
    /// At (or, if something is there, anywhere but at) an address
    fn near(cap: usize, hint: usize) -> Region {
        let data = cap.div_ceil(PAGE) * PAGE;
        let total = data + 2 * PAGE;
        unsafe {
            let p = libc::mmap(
                std::ptr::with_exposed_provenance_mut(hint),
                total,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap");
            let base = p.cast::<u8>();
            assert_eq!(
                libc::mprotect(base.add(PAGE).cast(), data, libc::PROT_READ | libc::PROT_WRITE),
                0
            );
            std::ptr::write_bytes(base.add(PAGE), CANARY, data);
            Region { base, total }
        }
    }
    pub fn cap(&self) -> usize {
        self.total - 2 * PAGE
    }
    fn data(&self) -> *mut u8 {
        unsafe { self.base.add(PAGE) }
    }
    pub fn protect(&self, ro: bool) {
        let prot = if ro { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE };
        unsafe {
            assert_eq!(libc::mprotect(self.data().cast(), self.cap(), prot), 0);
        }
    }
    pub fn protect_pages(&self, first: usize, n: usize, ro: bool) {
        let prot = if ro { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE };
        assert!((first + n) * PAGE <= self.cap());
        unsafe {
            assert_eq!(libc::mprotect(self.data().add(first * PAGE).cast(), n * PAGE, prot), 0);
        }
    }
    /// No access at all from now on
    pub fn forbid(&self) {
        unsafe {
            assert_eq!(libc::mprotect(self.data().cast(), self.cap(), libc::PROT_NONE), 0);
        }
    }
    pub fn start(&self) -> *mut u8 {
        self.data()
    }
    /// Is the address inside this region, guard pages included?
    pub fn contains(&self, a: usize) -> bool {
        let b = self.base as usize;
        a >= b && a < b + self.total
    }
}
#[cfg(not(target_arch = "wasm32"))]
impl Drop for Region {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base.cast(), self.total);
        }
    }
}

/// Without memory protection: canaries only
#[cfg(target_arch = "wasm32")]
impl Region {
    pub fn new(cap: usize) -> Region {
        let total = cap.div_ceil(PAGE) * PAGE + 2 * PAGE;
        unsafe {
            let base = alloc(Layout::from_size_align(total, PAGE).unwrap());
            assert!(!base.is_null(), "memory");
            std::ptr::write_bytes(base, CANARY, total);
            Region { base, total }
        }
    }
    fn near(cap: usize, _hint: usize) -> Region {
        Region::new(cap)
    }
    pub fn cap(&self) -> usize {
        self.total - 2 * PAGE
    }
    fn data(&self) -> *mut u8 {
        unsafe { self.base.add(PAGE) }
    }
    pub fn protect(&self, _ro: bool) {}
    pub fn protect_pages(&self, _first: usize, _n: usize, _ro: bool) {}
    pub fn start(&self) -> *mut u8 {
        self.data()
    }
    pub fn contains(&self, a: usize) -> bool {
        let b = self.base as usize;
        a >= b && a < b + self.total
    }
}
#[cfg(target_arch = "wasm32")]
impl Drop for Region {
    fn drop(&mut self) {
        unsafe { dealloc(self.base, Layout::from_size_align(self.total, PAGE).unwrap()) }
    }
}

/// Where a slice sits relative to the fence: distance from the end (or the start) of the region
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Place {
    End(usize),
    Start(usize),
}

pub struct Buf {
    pub ptr: *mut u8,
    pub len: usize,
    heap: Option<Layout>,
    lo: usize,
    hi: usize,
}

impl Buf {
    pub fn slice(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn slice_mut(&self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
    pub fn static_slice(&self) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
    pub fn static_slice_mut(&self) -> &'static mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
    #[cfg(target_arch = "x86_64")]
    pub fn margins(&self) -> (usize, usize) {
        (self.lo, self.hi)
    }
    /// Offset (relative to the slice) of a damaged canary byte around the slice
    pub fn damaged(&self) -> Option<isize> {
        if self.heap.is_some() {
            return None;
        }
        unsafe {
            for i in 0..self.lo {
                let o = -1 - i as isize;
                if *self.ptr.offset(o) != CANARY {
                    return Some(o);
                }
            }
            for i in 0..self.hi {
                let o = (self.len + i) as isize;
                if *self.ptr.offset(o) != CANARY {
                    return Some(o);
                }
            }
        }
        None
    }
    /// Give the memory back (restores canaries inside the slice)
    pub fn release(self) {
        unsafe {
            match self.heap {
                Some(l) => dealloc(self.ptr, l),
                None => std::ptr::write_bytes(self.ptr.sub(self.lo), CANARY, self.len + self.lo + self.hi),
            }
        }
    }
}

/// A set of reusable fenced regions
pub struct Arena {
    pub heap: bool,
    regions: Vec<Region>,
    used: usize,
    cap: usize,
    key: u64,
}

/// May regions be put anywhere? (Sanitizers have their own idea of the address space)
pub static ANYWHERE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(true);

/// Where to put a region of `total` bytes: beside the others, low, far away, across a multiple
/// of 2^32 (2^31 in a 32-bit process), or at the upper end
fn address(key: u64, i: u64, total: usize) -> usize {
    let z = hash3(key, i, 0xADD7);
    if !ANYWHERE.load(std::sync::atomic::Ordering::Relaxed) {
        return 0;
    }
    let page = |x: u64| (x as usize) & !(PAGE - 1);
    let at = (z >> 8) % 4 + 1;
    let across = |x: u64| {
        let x = page(x);
        // the multiple lies in the first or last pages of the data
        if z & 128 == 0 {
            x - (at as usize + 1) * PAGE
        } else {
            x - (total - (at as usize + 1) * PAGE)
        }
    };
    #[cfg(target_pointer_width = "64")]
    match z % 8 {
        0..=2 => 0,
        3 => page(0x1000_0000 + (z >> 16) % 0xE000_0000),
        4 => page(0x1_0000_0000 + (z >> 16) % 0x7ffe_0000_0000),
        5 => across((1 + (z >> 16) % 0x7ffd) << 32),
        6 => across((1 + (z >> 16) % 7) << 31),
        _ => page(0x7fff_ffff_e000 - total as u64 - ((z >> 16) % 0x1000_0000)),
    }
    #[cfg(target_pointer_width = "32")]
    match z % 8 {
        0..=3 => 0,
        4 => across(1 << 31),
        _ => page(0x1000_0000 + (z >> 16) % 0xD000_0000),
    }
}

impl Arena {
    pub fn new(heap: bool, cap: usize) -> Arena {
        Arena { heap, regions: vec![], used: 0, cap, key: 0 }
    }
    pub fn reset(&mut self) {
        self.used = 0;
        // other addresses from time to time, the same ones if a trial is repeated
        let (phase, idx) = crate::fault::trial();
        let key = hash3(phase, idx / 1024, 0xA4EA);
        if key != self.key && !self.heap {
            self.key = key;
            self.regions.clear();
        }
        // regions grown for one big case are dropped
        let cap = self.cap.div_ceil(PAGE) * PAGE;
        self.regions.retain(|r| r.cap() == cap);
    }
    pub fn region(&self, i: usize) -> &Region {
        &self.regions[i]
    }
    pub fn used(&self) -> usize {
        self.used
    }
    pub fn contains(&self, a: usize) -> bool {
        self.regions.iter().any(|r| r.contains(a))
    }
    pub fn take(&mut self, len: usize, place: Place) -> Buf {
        if self.heap {
            let off = match place {
                Place::End(x) | Place::Start(x) => x % 16,
            };
            // Exact block (no slack): alignment variety comes from the allocator and, for odd
            // offsets, from an alignment of one
            let l = Layout::from_size_align(len.max(1), if off == 0 { 64 } else { 1 }).unwrap();
            let ptr = unsafe { alloc(l) };
            assert!(!ptr.is_null());
            return Buf { ptr, len, heap: Some(l), lo: 0, hi: 0 };
        }
        let need = len + 2 * PAGE;
        if self.used == self.regions.len() {
            let cap = self.cap.max(need);
            let at = address(self.key, self.used as u64, cap.div_ceil(PAGE) * PAGE + 2 * PAGE);
            self.regions.push(Region::near(cap, at));
        } else if self.regions[self.used].cap() < need {
            self.regions[self.used] = Region::new(need);
        }
        let r = &self.regions[self.used];
        self.used += 1;
        let off = match place {
            Place::End(d) => r.cap() - len - d.min(PAGE),
            Place::Start(d) => d.min(PAGE),
        };
        Buf {
            ptr: unsafe { r.data().add(off) },
            len,
            heap: None,
            lo: off.min(MARGIN),
            hi: (r.cap() - off - len).min(MARGIN),
        }
    }
}
