//! Recording allocator: red zones, poison, quarantine, size/alignment/owner ledger.
use eastl_rs::Allocator;
use std::alloc::{alloc, dealloc, Layout};
use std::cell::UnsafeCell;
use std::collections::HashMap;

const RZ: usize = 64;
const RZB: u8 = 0xB7;
const FRESH: u8 = 0xA5;
const DEAD: u8 = 0xDD;

#[derive(Clone, Copy)]
pub struct Blk {
    pub id: i64,
    pub addr: usize,
    pub size: usize,
    pub align: usize,
    pub owner: u32,
    base: usize,
    lay: Layout,
    live: bool,
}

pub struct Mem {
    pub live: HashMap<usize, Blk>,
    pub dead: Vec<Blk>,
    pub dead_bytes: usize,
    pub n: i64,
    pub log: Vec<[i64; 5]>,
    pub errs: Vec<&'static str>,
    pub logging: bool,
    pub allocs: i64, // number of allocation calls
    pub next_owner: u32,
    pub alloc_state: Vec<u8>, // 1 alive 2 dropped
    pub quarantine: usize,
    pub fail_after: Option<i64>,
    addr_ids: HashMap<usize, i64>,
}
struct G(UnsafeCell<Option<Mem>>);
unsafe impl Sync for G {}
static MEM: G = G(UnsafeCell::new(None));

pub fn mem() -> &'static mut Mem {
    unsafe {
        (*MEM.0.get()).get_or_insert_with(|| Mem {
            live: HashMap::new(),
            dead: vec![],
            dead_bytes: 0,
            n: 0,
            log: vec![],
            errs: vec![],
            logging: false,
            allocs: 0,
            next_owner: 1,
            alloc_state: vec![0],
            quarantine: 64 << 20,
            fail_after: None,
            addr_ids: HashMap::new(),
        })
    }
}

/// New trace: release what the last one left behind.
pub fn reset() {
    let m = mem();
    for b in m.dead.drain(..).chain(m.live.drain().map(|x| x.1)) {
        unsafe { dealloc(b.base as *mut u8, b.lay) }
    }
    m.dead_bytes = 0;
    m.n = 0;
    m.log.clear();
    m.errs.clear();
    m.allocs = 0;
    m.next_owner = 1;
    m.alloc_state.clear();
    m.alloc_state.push(0);
    m.addr_ids.clear();
}
/// Stable small number for an address (0 for null).
pub fn addr_id(a: usize) -> i64 {
    if a == 0 {
        return 0;
    }
    let m = mem();
    let n = m.addr_ids.len() as i64 + 1;
    *m.addr_ids.entry(a).or_insert(n)
}
/// Live block containing the address range, as (id, offset); None if not inside a live block.
pub fn find(a: usize, len: usize) -> Option<(Blk, usize)> {
    let m = mem();
    if let Some(b) = m.live.get(&a) {
        if len <= b.size {
            return Some((*b, 0));
        }
    }
    for b in m.live.values() {
        if a >= b.addr && a + len <= b.addr + b.size {
            return Some((*b, a - b.addr));
        }
    }
    None
}
unsafe fn zone_ok(b: &Blk) -> bool {
    let lo = std::slice::from_raw_parts((b.addr - RZ) as *const u8, RZ);
    let hi = std::slice::from_raw_parts((b.addr + b.size) as *const u8, RZ);
    lo.iter().all(|x| *x == RZB) && hi.iter().all(|x| *x == RZB)
}
unsafe fn dead_ok(b: &Blk) -> bool {
    let s = std::slice::from_raw_parts(b.addr as *const u8, b.size);
    s.iter().all(|x| *x == DEAD) && zone_ok(b)
}
/// Check all red zones and quarantined blocks.
pub fn sweep() {
    let m = mem();
    for b in m.live.values() {
        if unsafe { !zone_ok(b) } {
            m.errs.push("write-outside-block");
        }
    }
    for b in &m.dead {
        if unsafe { !dead_ok(b) } {
            m.errs.push("write-after-return");
        }
    }
}

#[repr(C)]
pub struct TA {
    pub id: u32,
}
impl Default for TA {
    fn default() -> Self {
        let m = mem();
        let id = m.next_owner;
        m.next_owner += 1;
        m.alloc_state.push(1);
        TA { id }
    }
}
impl Clone for TA {
    fn clone(&self) -> Self {
        TA::default()
    }
}
impl Drop for TA {
    fn drop(&mut self) {
        let m = mem();
        match m.alloc_state.get(self.id as usize) {
            Some(1) => m.alloc_state[self.id as usize] = 2,
            Some(2) => m.errs.push("allocator-dropped-twice"),
            _ => m.errs.push("garbage-allocator-dropped"),
        }
    }
}
unsafe impl Allocator for TA {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        let m = mem();
        if m.alloc_state.get(self.id as usize) != Some(&1) {
            m.errs.push("dead-allocator-used");
        }
        if n == 0 {
            m.errs.push("zero-size-request");
        }
        if !align.is_power_of_two() {
            m.errs.push("bad-alignment-request");
        }
        // exactly as aligned as asked, and not more
        let al = align.max(1).next_power_of_two();
        let pre = RZ.next_multiple_of(2 * al) + al;
        let lay = Layout::from_size_align(pre + n + RZ, 2 * al).unwrap();
        let base = unsafe { alloc(lay) } as usize;
        if base == 0 {
            std::process::exit(3);
        }
        let addr = base + pre;
        unsafe {
            std::ptr::write_bytes((addr - RZ) as *mut u8, RZB, RZ);
            std::ptr::write_bytes(addr as *mut u8, FRESH, n);
            std::ptr::write_bytes((addr + n) as *mut u8, RZB, RZ);
        }
        m.n += 1;
        m.allocs += 1;
        let b = Blk { id: m.n, addr, size: n, align, owner: self.id, base, lay, live: true };
        m.live.insert(addr, b);
        if m.logging {
            m.log.push([0, b.id, n as i64, align as i64, self.id as i64]);
        }
        addr as *mut ()
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        let m = mem();
        if m.alloc_state.get(self.id as usize) != Some(&1) {
            m.errs.push("dead-allocator-used");
        }
        match m.live.remove(&(p as usize)) {
            None => {
                let id = m.dead.iter().rev().find(|b| b.addr == p as usize).map_or(-1, |b| b.id);
                if id < 0 {
                    m.errs.push("return-of-foreign-block");
                } else {
                    m.errs.push("block-returned-twice");
                }
                if m.logging {
                    m.log.push([1, id, n as i64, align as i64, self.id as i64]);
                }
            }
            Some(mut b) => {
                if m.logging {
                    m.log.push([1, b.id, n as i64, align as i64, self.id as i64]);
                }
                if !zone_ok(&b) {
                    m.errs.push("write-outside-block");
                }
                std::ptr::write_bytes(b.addr as *mut u8, DEAD, b.size);
                b.live = false;
                m.dead_bytes += b.size + 64;
                m.dead.push(b);
                if m.dead_bytes > m.quarantine {
                    // release the older half
                    let k = m.dead.len() / 2;
                    let mut bad = false;
                    for b in m.dead.drain(..k) {
                        bad |= !dead_ok(&b);
                        m.dead_bytes -= b.size + 64;
                        dealloc(b.base as *mut u8, b.lay);
                    }
                    if bad {
                        m.errs.push("write-after-return");
                    }
                }
            }
        }
    }
}
