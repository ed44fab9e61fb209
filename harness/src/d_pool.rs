//! The fixed pools over a region in the middle of an arena, with guard bytes around it.
use crate::ctx::*;
use eastl_rs::verif::{FixedPool, FixedPoolWithOverflow, PoolAllocator};
use eastl_rs::Allocator;
use std::cell::UnsafeCell;
use std::mem::{align_of, size_of};

const ARENA: usize = 1 << 15;
const MID: usize = 1 << 14;
const G: u8 = 0xC3;

#[repr(align(64))]
struct Arena(UnsafeCell<[u8; ARENA]>);
unsafe impl Sync for Arena {}
static A: Arena = Arena(UnsafeCell::new([0; ARENA]));

struct Ov {
    log: Vec<Vec<i64>>,
    lo: usize, // next block before the region ends here
    hi: usize, // next block after the region starts here
    free: Vec<(usize, usize)>,
    region: usize,
    used: Vec<(usize, usize)>, // bytes of the arena handed out by the overflow allocator
    turn: bool,
    mode: i64,
}
struct O(UnsafeCell<Option<Ov>>);
unsafe impl Sync for O {}
static OV: O = O(UnsafeCell::new(None));
fn ov() -> &'static mut Ov {
    unsafe { (*OV.0.get()).as_mut().unwrap() }
}

/// Overflow allocator: right before and right after the region (mode 2, 3) or far from it (mode 1).
#[derive(Default)]
struct OA;
unsafe impl Allocator for OA {
    fn allocate_raw_aligned(&mut self, n: usize, al: usize) -> *mut () {
        let o = ov();
        let al1 = al.max(1);
        let p = if let Some(i) = o.free.iter().position(|b| b.1 == n && b.0 % al1 == 0) {
            o.free.remove(i).0
        } else {
            o.turn = !o.turn;
            if o.turn == (o.mode != 3) {
                let p = o.hi.next_multiple_of(al1);
                o.hi = p + n;
                p
            } else {
                let p = (o.lo - n) / al1 * al1;
                o.lo = p;
                p
            }
        };
        o.used.push((p, n));
        o.log.push(vec![0, n as i64, al as i64, p as i64 - o.region as i64]);
        p as *mut ()
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, al: usize) {
        let o = ov();
        let p = p as usize;
        o.log.push(vec![1, n as i64, al as i64, p as i64 - o.region as i64]);
        if let Some(i) = o.used.iter().position(|b| b.0 == p) {
            let b = o.used.remove(i);
            o.free.insert(0, b);
            // what the user left there is dead
            std::ptr::write_bytes(p as *mut u8, G, b.1);
        }
    }
}

enum Pool<N> {
    Plain(FixedPool<N>),
    Over(FixedPoolWithOverflow<N, OA>),
}
impl<N> Pool<N> {
    fn can(&self) -> bool {
        match self {
            Pool::Plain(p) => p.can_allocate(),
            Pool::Over(p) => p.can_allocate(),
        }
    }
    fn alloc(&mut self) -> *mut N {
        match self {
            Pool::Plain(p) => p.allocate(1),
            Pool::Over(p) => p.allocate(1),
        }
    }
    fn free(&mut self, x: *mut N) {
        unsafe {
            match self {
                Pool::Plain(p) => p.deallocate(x, 1),
                Pool::Over(p) => p.deallocate(x, 1),
            }
        }
    }
}

fn drive<N>(c: &mut Ctx, steps: &[Step]) {
    let base = A.0.get() as usize;
    let region = base + MID + c.geti("off", 0) as usize;
    let len = c.geti("len", 64) as usize;
    let mode = c.geti("ov", 0);
    let (sz, al) = (size_of::<N>(), align_of::<N>());
    unsafe {
        std::ptr::write_bytes(base as *mut u8, G, ARENA);
        *OV.0.get() = Some(Ov {
            log: vec![],
            lo: if mode == 1 { base + 4096 } else { region },
            hi: if mode == 1 { base + ARENA - 8192 } else { region + len },
            free: vec![],
            region,
            used: vec![],
            turn: false,
            mode,
        });
    }
    let mem: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(region as *mut u8, len) };
    let mut pool: Option<Pool<N>> = None;
    let mut held: Vec<usize> = vec![];
    let mut stamp = 0u8;
    let mut stamps: Vec<u8> = vec![];
    for st in steps {
        ov().log.clear();
        let mut intact = 1;
        let p = c.op(&st.op, &st.a, st.fault, || {
            match st.op.as_str() {
                "build" => unsafe {
                    let m: &'static mut [u8] = std::slice::from_raw_parts_mut(mem.as_mut_ptr(), len);
                    pool = Some(match (mode, st.a[0]) {
                        (0, 0) => Pool::Plain(FixedPool::new(m)),
                        (0, _) => {
                            let mut p = FixedPool::default();
                            p.init(m);
                            Pool::Plain(p)
                        }
                        (_, 0) => Pool::Over(FixedPoolWithOverflow::new(m, OA)),
                        (_, 1) => {
                            let mut p = FixedPoolWithOverflow::with_allocator(OA);
                            p.init(m);
                            Pool::Over(p)
                        }
                        (_, 2) => Pool::Over(FixedPoolWithOverflow::new_with_default_allocator(m)),
                        _ => {
                            let mut p = FixedPoolWithOverflow::default();
                            p.init(m);
                            Pool::Over(p)
                        }
                    })
                },
                // built by C++ and used before: the first a[0] blocks were handed out once, those of a[2..] still are,
                // the others are on the free list in some order
                "adopt" => unsafe {
                    let b0 = region.next_multiple_of(al);
                    let n = (region + len).saturating_sub(b0) / sz;
                    let used = (st.a[0] as usize).min(n);
                    let keep: Vec<usize> = st.a[2..].iter().map(|x| *x as usize).filter(|x| *x < used).collect();
                    let mut free: Vec<usize> = (0..used).filter(|x| !keep.contains(x)).collect();
                    let mut seed = st.a[1] as u64;
                    for i in (1..free.len()).rev() {
                        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        free.swap(i, (seed >> 33) as usize % (i + 1))
                    }
                    let mut head = 0;
                    for i in free {
                        *((b0 + i * sz) as *mut usize) = head;
                        head = b0 + i * sz;
                    }
                    let w = [head, b0 + used * sz, b0 + n * sz];
                    pool = Some(if mode == 0 {
                        let mut o = crate::cxx::blank::<FixedPool<N>>();
                        crate::cxx::put(&mut o as *mut _ as *mut u8, 0, w);
                        Pool::Plain(o.assume_init())
                    } else {
                        let mut o = crate::cxx::blank::<FixedPoolWithOverflow<N, OA>>();
                        crate::cxx::put(&mut o as *mut _ as *mut u8, 0, w);
                        crate::cxx::put(&mut o as *mut _ as *mut u8, 24, region);
                        Pool::Over(o.assume_init())
                    });
                    (held, stamps) = (vec![], vec![]);
                    let mut r = vec![];
                    for i in keep {
                        stamp = stamp % 100 + 1;
                        held.push(b0 + i * sz);
                        stamps.push(stamp);
                        std::ptr::write_bytes((b0 + i * sz) as *mut u8, stamp, sz);
                        r.push((b0 + i * sz - region) as i64);
                    }
                    return r;
                },
                "alloc" => {
                    let x = pool.as_mut().unwrap().alloc() as usize;
                    if x == 0 {
                        return vec![];
                    }
                    held.push(x);
                    let inside = x < base + ARENA && x + sz <= base + ARENA && x >= base;
                    if inside {
                        stamp = stamp % 100 + 1;
                        stamps.push(stamp);
                        unsafe { std::ptr::write_bytes(x as *mut u8, stamp, sz) }
                    } else {
                        stamps.push(0);
                    }
                    let o = if inside { x as i64 - region as i64 } else { -1 << 20 };
                    return vec![(x % al) as i64, o];
                }
                "free" => {
                    let i = st.a[0] as usize;
                    let x = held.remove(i);
                    let s = stamps.remove(i);
                    if s != 0 {
                        let b = unsafe { std::slice::from_raw_parts(x as *const u8, sz) };
                        intact = b.iter().all(|y| *y == s) as i64;
                        pool.as_mut().unwrap().free(x as *mut N)
                    }
                }
                o => panic!("op {o}"),
            }
            vec![]
        });
        if p && st.op == "build" {
            // nothing to work with
        }
        c.int("ok", intact);
        c.arr2("oc", &ov().log.clone());
        if let Some(p) = &pool {
            c.int("can", p.can() as i64);
        }
        // nothing outside the region and the overflow blocks is ever written; blocks in use keep what was put there
        let mut touched = 0;
        let o = ov();
        let all = unsafe { std::slice::from_raw_parts(base as *const u8, ARENA) };
        let mut cover: Vec<(usize, usize)> = o.used.clone();
        cover.push((region, len));
        cover.sort();
        let mut at = base;
        for (q, n) in cover {
            if q > at {
                touched += all[at - base..q - base].iter().filter(|b| **b != G).count() as i64;
            }
            at = at.max(q + n);
        }
        touched += all[at - base..].iter().filter(|b| **b != G).count() as i64;
        c.int("out", touched);
        let mut kept = 1;
        for (x, s) in held.iter().zip(&stamps) {
            if *s != 0 {
                let b = unsafe { std::slice::from_raw_parts(*x as *const u8, sz) };
                kept &= b.iter().all(|y| y == s) as i64;
            }
        }
        c.int("kept", kept);
        c.end();
    }
}

#[repr(align(16))]
#[allow(dead_code)]
struct A16([u8; 32]);
#[repr(align(32))]
#[allow(dead_code)]
struct A32([u8; 32]);

pub fn run(c: &mut Ctx, steps: &[Step]) {
    match (c.geti("sz", 8), c.geti("al", 8)) {
        (8, 8) => drive::<u64>(c, steps),
        (16, 8) => drive::<[u64; 2]>(c, steps),
        (24, 8) => drive::<[u64; 3]>(c, steps),
        (40, 8) => drive::<[u64; 5]>(c, steps),
        (32, 16) => drive::<A16>(c, steps),
        (32, 32) => drive::<A32>(c, steps),
        _ => panic!("node"),
    }
}
