//! The default allocator, and the containers over it, seen from the process's global allocator.
use crate::ctx::*;
use eastl_rs::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::collections::HashMap as Std;

const MAX: usize = 1 << 16;
struct Rec {
    on: bool,
    n: usize,
    log: [(u8, usize, usize, usize); MAX],
}
struct G(UnsafeCell<Rec>);
unsafe impl Sync for G {}
static REC: G = G(UnsafeCell::new(Rec { on: false, n: 0, log: [(0, 0, 0, 0); MAX] }));
fn rec() -> &'static mut Rec {
    unsafe { &mut *REC.0.get() }
}
fn note(k: u8, p: usize, l: Layout) {
    let r = rec();
    if r.on && r.n < MAX {
        r.log[r.n] = (k, p, l.size(), l.align());
        r.n += 1;
    }
}
pub struct Glob;
unsafe impl GlobalAlloc for Glob {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        note(0, p as usize, l);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let r = rec();
        note(1, p as usize, l);
        // what is returned with the wrong layout must not reach the system
        if r.on {
            let t = &r.log[..r.n];
            let ok = t[..r.n - 1].iter().rev().find(|x| x.1 == p as usize).map_or(true, |x| *x == (0, p as usize, l.size(), l.align()));
            if !ok {
                return;
            }
        }
        System.dealloc(p, l)
    }
}
/// Everything the global allocator is asked while `f` runs.
fn watch<T>(f: impl FnOnce() -> T) -> T {
    rec().on = true;
    let r = f();
    rec().on = false;
    r
}

struct Lcg(u64);
impl Lcg {
    fn n(&mut self, k: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % k
    }
}
type E = Box<u64>;
fn e(g: &mut Lcg) -> E {
    Box::new(g.n(40))
}
fn vector(v: &mut Vector<E, impl Allocator>, g: &mut Lcg, n: u64) {
    for _ in 0..n {
        match g.n(10) {
            0..=4 => v.push(e(g)),
            5 => v.insert(g.n(v.len() as u64 + 1) as usize, e(g)),
            6 => drop(v.pop()),
            7 => drop(v.remove(g.n(v.len() as u64 + 1) as usize)),
            8 => v.reserve(g.n(3) as usize),
            _ if g.n(8) == 0 => v.clear(),
            _ => (),
        }
    }
}
fn list(v: &mut List<E, impl Allocator>, g: &mut Lcg, n: u64) {
    for _ in 0..n {
        match g.n(9) {
            0..=2 => v.push_back(e(g)),
            3..=4 => v.push_front(e(g)),
            5..=6 => drop(v.pop_front()),
            7 => drop(v.pop_back()),
            _ if g.n(8) == 0 => v.clear(),
            _ => (),
        }
    }
}
fn story(kind: &str, seed: i64, n: u64) {
    let g = &mut Lcg(seed as u64);
    match kind {
        "vec" => {
            let mut v = DefaultVector::<E>::new();
            vector(&mut v, g, n);
            let mut i = v.into_iter();
            for _ in 0..g.n(5) {
                i.next();
                i.next_back();
            }
        }
        "fvec" => {
            moveit::moveit!(let mut v = unsafe { eastl_rs::fixed_vector::DefaultFixedVector::<E, 3>::new() });
            for _ in 0..n {
                match g.n(7) {
                    0..=3 => v.as_mut().push(e(g)),
                    4 => drop(v.as_mut().pop()),
                    5 => drop(v.as_mut().remove(0)),
                    _ => (),
                }
            }
        }
        "deq" => {
            let mut v = DefaultDeque::<E>::new();
            for _ in 0..n * 3 {
                match g.n(8) {
                    0..=2 => v.push_back(e(g)),
                    3..=4 => v.push_front(e(g)),
                    5 => drop(v.pop_front()),
                    6 => drop(v.pop_back()),
                    _ => drop(v.remove(g.n(v.len() as u64 + 1) as usize)),
                }
            }
        }
        "que" => {
            let mut v = DefaultQueue::<E>::default();
            for _ in 0..n * 3 {
                match g.n(3) {
                    0..=1 => v.push(e(g)),
                    _ => drop(v.pop()),
                }
            }
        }
        "lst" => {
            moveit::moveit!(let mut v = unsafe { DefaultList::<E>::new() });
            list(unsafe { v.as_mut().get_unchecked_mut() }, g, n)
        }
        "fls" => {
            moveit::moveit!(let mut v = unsafe { DefaultFixedList::<E, 3>::new_with_default_overflow_allocator() });
            list(unsafe { v.as_mut().get_unchecked_mut() }, g, n)
        }
        "hm" => {
            let mut v = DefaultHashMap::<u64, E>::new();
            for _ in 0..n {
                let k = g.n(60);
                match g.n(8) {
                    0..=3 => drop(v.insert(k, e(g))),
                    4 => drop(v.entry(k).or_insert(e(g))),
                    5..=6 => drop(v.remove(&k)),
                    _ if g.n(12) == 0 => v.clear(),
                    _ => (),
                }
            }
        }
        "hs" => {
            let mut v = DefaultHashSet::<u64>::new();
            for _ in 0..n {
                let k = g.n(60);
                match g.n(8) {
                    0..=4 => drop(v.insert(k)),
                    5..=6 => drop(v.remove(&k)),
                    _ if g.n(12) == 0 => v.clear(),
                    _ => (),
                }
            }
        }
        "vm" => {
            let mut v = DefaultVectorMap::<u64, E>::new();
            for _ in 0..n {
                let k = g.n(40);
                match g.n(8) {
                    0..=3 => drop(v.insert(k, e(g))),
                    4..=6 => drop(v.remove(&k)),
                    _ if g.n(12) == 0 => v.clear(),
                    _ => (),
                }
            }
        }
        "str" => {
            let mut v = DefaultString::new();
            for _ in 0..n {
                match g.n(9) {
                    0..=4 => v.push(['a', 'é', '€'][g.n(3) as usize]),
                    5 => v.insert(0, 'z'),
                    6 => drop(v.pop()),
                    7 => v.assign("xyz"),
                    _ => v.reserve(g.n(4) as usize),
                }
            }
        }
        k => panic!("story {k}"),
    }
}

pub fn run(c: &mut Ctx, steps: &[Step]) {
    let mut held: Vec<(*mut (), usize, usize, i64)> = vec![];
    let mut ids: Std<usize, i64> = Std::new();
    let mut nid = 0;
    for st in steps {
        let a = &st.a;
        let mut al = DefaultAllocator::new();
        rec().n = 0;
        c.op(&st.op, a, st.fault, || {
            let mut r = vec![];
            let mut keep = |p: *mut (), n: usize, align: usize, how: i64| {
                r.push((!p.is_null() && p as usize % align == 0) as i64);
                unsafe { std::ptr::write_bytes(p as *mut u8, 0x5a, n) };
                held.push((p, n, align, how));
            };
            match st.op.as_str() {
                // bytes, alignment
                "raw" => {
                    let p = watch(|| al.allocate_raw_aligned(a[0] as usize, a[1] as usize));
                    keep(p, a[0] as usize, a[1] as usize, 0)
                }
                "word" => {
                    let p = watch(|| al.allocate_raw(a[0] as usize));
                    keep(p, a[0] as usize, 8, 1)
                }
                // number, element type
                "typed" => {
                    let n = a[0] as usize;
                    let p = watch(|| match a[1] {
                        1 => al.allocate::<u8>(n) as *mut (),
                        2 => al.allocate::<[u16; 3]>(n) as *mut (),
                        4 => al.allocate::<[u32; 5]>(n) as *mut (),
                        8 => al.allocate::<(u64, u8)>(n) as *mut (),
                        16 => al.allocate::<u128>(n) as *mut (),
                        _ => panic!("type"),
                    });
                    let s = match a[1] {
                        1 => 1,
                        2 => 6,
                        4 => 20,
                        _ => 16,
                    };
                    keep(p, n * s, a[1] as usize, 2 + a[1])
                }
                "ret" => {
                    let i = a[0] as usize % held.len();
                    let (p, n, align, how) = held.remove(i);
                    watch(|| unsafe {
                        match how {
                            0 => al.deallocate_raw_aligned(p, n, align),
                            1 => al.deallocate_raw(p, n),
                            3 => al.deallocate(p as *mut u8, n),
                            4 => al.deallocate(p as *mut [u16; 3], n / 6),
                            6 => al.deallocate(p as *mut [u32; 5], n / 20),
                            10 => al.deallocate(p as *mut (u64, u8), n / 16),
                            _ => al.deallocate(p as *mut u128, n / 16),
                        }
                    })
                }
                "fin" => {
                    for (p, n, align, _) in held.drain(..) {
                        watch(|| unsafe { DefaultAllocator::default().deallocate_raw_aligned(p, n, align) })
                    }
                }
                // seed, operations
                k => watch(|| story(k, a[0], a[1] as u64)),
            }
            r
        });
        rec().on = false;
        let mut m = vec![];
        let t = rec();
        for x in &t.log[..t.n] {
            let id = if x.0 == 0 {
                nid += 1;
                ids.insert(x.1, nid);
                nid
            } else {
                ids.get(&x.1).copied().unwrap_or(-1)
            };
            m.push(vec![x.0 as i64, id, x.2 as i64, x.3 as i64, 0]);
        }
        c.arr2("m", &m);
        c.strs("me", &if t.n == MAX { vec!["too-many-calls"] } else { vec![] });
        c.end();
    }
}
