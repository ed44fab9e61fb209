//! Objects as C++ EASTL lays them out: written word by word into raw memory, without any constructor of the crate.
use crate::d_deque::block_len;
use crate::led::*;
use crate::talloc::*;
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;
use eastl_rs::{Allocator, Deque, Equals, Hash, Vector};
use std::mem::{align_of, size_of, ManuallyDrop, MaybeUninit};

/// Memory for an object, holding nothing in particular.
pub fn blank<T>() -> MaybeUninit<T> {
    let mut m = MaybeUninit::uninit();
    unsafe { std::ptr::write_bytes(&mut m as *mut _ as *mut u8, 0xA5, size_of::<T>()) }
    m
}
pub unsafe fn put<V>(o: *mut u8, off: usize, v: V) {
    (o.add(off) as *mut V).write_unaligned(v)
}
/// An allocator that lives on inside the object it is written into.
pub fn ta() -> ManuallyDrop<TA> {
    ManuallyDrop::new(TA::default())
}
fn block<T>(a: &mut TA, n: usize) -> *mut T {
    a.allocate_raw_aligned(n * size_of::<T>(), align_of::<T>()) as *mut T
}

pub unsafe fn vector_into<T>(o: *mut u8, cap: usize, e: Vec<T>) {
    let mut a = ta();
    let b: *mut T = if cap == 0 { std::ptr::null_mut() } else { block(&mut a, cap) };
    put(o, 0, b);
    put(o, 8, b.wrapping_add(e.len()));
    put(o, 16, b.wrapping_add(cap));
    put(o, 24, a.id);
    for (i, e) in e.into_iter().enumerate() {
        b.add(i).write(e)
    }
}
pub fn vector<T>(cap: usize, e: Vec<T>) -> Vector<T, TA> {
    assert!(e.len() <= cap);
    let mut o = blank::<Vector<T, TA>>();
    unsafe {
        vector_into(&mut o as *mut _ as *mut u8, cap, e);
        o.assume_init()
    }
}

/// A deque over `slots` block pointers, the first element at (`slot`, `off`); the unused pointers hold garbage.
pub fn deque<const P: usize>(slots: usize, slot: usize, off: usize, e: Vec<Elem<P>>) -> Deque<'static, Elem<P>, TA> {
    let bl = block_len(size_of::<Elem<P>>());
    let last = slot + (off + e.len()) / bl;
    assert!(last < slots && off < bl);
    let mut o = blank::<Deque<'static, Elem<P>, TA>>();
    let p = &mut o as *mut _ as *mut u8;
    unsafe {
        let mut a = ta();
        let arr: *mut *mut Elem<P> = block(&mut a, slots);
        for s in 0..slots {
            arr.add(s).write(if s >= slot && s <= last { block(&mut a, bl) } else { 0xA5A5_A5A5_0010 as *mut _ })
        }
        put(p, 0, arr);
        put(p, 8, slots as u32);
        for (at, s, i) in [(16, slot, off), (48, last, (off + e.len()) % bl)] {
            let b = *arr.add(s);
            put(p, at, b.add(i));
            put(p, at + 8, b);
            put(p, at + 16, b.add(bl));
            put(p, at + 24, arr.add(s));
        }
        put(p, 80, a.id);
        for (i, e) in e.into_iter().enumerate() {
            let i = off + i;
            (*arr.add(slot + i / bl)).add(i % bl).write(e)
        }
        o.assume_init()
    }
}

/// C++'s own empty bucket array.
pub static EMPTY: [usize; 2] = [0, !0];

#[repr(C)]
struct HNode<K, V> {
    k: K,
    v: V,
    next: *mut HNode<K, V>,
}
/// A hash table of `bc` buckets; the entries join their chains at the front, or at the back when `back`.
unsafe fn table<K, V>(o: *mut u8, bc: usize, next: u32, back: bool, e: Vec<(K, V)>, at: impl Fn(&K) -> usize) {
    let mut a = ta();
    put(o, 16, bc as u32);
    put(o, 20, e.len() as u32);
    put(o, 24, 1f32);
    put(o, 28, 2f32);
    put(o, 32, next);
    put(o, 36, a.id);
    if bc == 1 {
        assert!(e.is_empty());
        return put(o, 8, EMPTY.as_ptr());
    }
    let arr: *mut *mut HNode<K, V> = block(&mut a, bc + 1);
    for b in 0..bc {
        arr.add(b).write(std::ptr::null_mut())
    }
    arr.add(bc).write(!0usize as *mut _);
    put(o, 8, arr);
    for (k, v) in e {
        let mut p = arr.add(at(&k) % bc);
        while back && !(*p).is_null() {
            p = &mut (**p).next
        }
        let n: *mut HNode<K, V> = block(&mut a, 1);
        n.write(HNode { k, v, next: *p });
        *p = n;
    }
}
pub fn map<const P: usize, H: Hash<Elem<P>>, E: Equals<Elem<P>>>(a: &[i64]) -> HashMap<Elem<P>, Elem<P>, TA, H, E> {
    let mut o = blank();
    let e = a[3..].chunks(2).map(|x| (Elem::<P>::new(x[0]), Elem::<P>::new(x[1]))).collect();
    unsafe {
        table(&mut o as *mut _ as *mut u8, a[0] as usize, a[1] as u32, a[2] == 1, e, |k| hash_val(k.key()));
        o.assume_init()
    }
}
pub fn set<const P: usize, H: Hash<Elem<P>>, E: Equals<Elem<P>>>(a: &[i64]) -> HashSet<Elem<P>, TA, H, E> {
    let mut o = blank();
    let e = a[3..].iter().map(|x| (Elem::<P>::new(*x), ())).collect();
    unsafe {
        table(&mut o as *mut _ as *mut u8, a[0] as usize, a[1] as u32, a[2] == 1, e, |k| hash_val(k.key()));
        o.assume_init()
    }
}

/// The links of a list or fixed list of `own` nodes inside an object at `o` that was set up empty;
/// `a`: nodes of the pool ever used, a seed, then (value, own) for each element.
/// The used pool nodes that hold no element are on the free list, in some order.
pub unsafe fn list<const P: usize>(o: *mut u8, osz: usize, own: usize, c: &[i64]) {
    #[repr(C)]
    struct N<const P: usize> {
        next: *mut u8,
        prev: *mut u8,
        v: Elem<P>,
    }
    std::ptr::write_bytes(o, 0xA5, osz);
    let mut a = ta();
    let (used, mut seed) = (c[0] as usize, c[1] as u64);
    let e: Vec<(i64, i64)> = c[2..].chunks(2).map(|x| (x[0], x[1])).collect();
    put(o, 16, e.len() as u32);
    let mut slots: Vec<*mut N<P>> = vec![];
    if own == 0 {
        put(o, 20, a.id)
    } else {
        let ns = size_of::<N<P>>();
        // the buffer follows the pool; a padding node follows the buffer
        let buf = o.add(64usize.next_multiple_of(align_of::<N<P>>()));
        assert!(buf as usize + (own + 1) * ns <= o as usize + osz);
        slots = (0..used).map(|i| buf.add(i * ns) as *mut N<P>).collect();
        for i in (1..slots.len()).rev() {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            slots.swap(i, (seed >> 33) as usize % (i + 1))
        }
        put(o, 32, buf.add(used * ns));
        put(o, 40, buf.add(own * ns));
        put(o, 48, a.id);
        put(o, 56, buf);
    }
    let mut last = o;
    for (v, w) in e {
        let n = if w == 1 { slots.pop().unwrap() } else { block(&mut a, 1) };
        (n as *mut u8 as *mut [usize; 2]).write([0, last as usize]);
        std::ptr::addr_of_mut!((*n).v).write(Elem::new(v));
        put(last, 0, n);
        last = n as *mut u8;
    }
    put(last, 0, o);
    put(o, 8, last);
    if own > 0 {
        let mut head = 0usize;
        for n in slots {
            put(n as *mut u8, 0, head);
            head = n as usize;
        }
        put(o, 24, head);
    }
}

/// A fixed vector of `n` inline slots at `o`; more capacity than that lies in a block.
pub unsafe fn fixed_vector<const P: usize>(o: *mut u8, n: usize, cap: usize, e: Vec<Elem<P>>) {
    let mut a = ta();
    let buf = o.add(40usize.next_multiple_of(align_of::<Elem<P>>())) as *mut Elem<P>;
    let b = if cap <= n { buf } else { block(&mut a, cap) };
    put(o, 0, b);
    put(o, 8, b.add(e.len()));
    put(o, 16, b.add(cap.max(n)));
    put(o, 24, a.id);
    put(o, 32, buf);
    for (i, e) in e.into_iter().enumerate() {
        b.add(i).write(e)
    }
}

/// A table of plain numbers, many buckets, other load and growth factors; nothing in it.
/// `a`: buckets, numerator and denominator of the load factor, of the growth factor, entries at which to look again.
pub fn numbers<A: Allocator + Default>(a: &[i64]) -> HashMap<u64, u64, A> {
    let mut o = blank();
    let p = &mut o as *mut _ as *mut u8;
    let bc = a[0] as usize;
    unsafe {
        put(p, 16, bc as u32);
        put(p, 20, 0u32);
        put(p, 24, a[1] as f32 / a[2] as f32);
        put(p, 28, a[3] as f32 / a[4] as f32);
        put(p, 32, a[5] as u32);
        if bc == 1 {
            put(p, 8, EMPTY.as_ptr())
        } else {
            let arr: *mut usize = A::default().allocate(bc + 1);
            std::ptr::write_bytes(arr, 0, bc);
            arr.add(bc).write(!0);
            put(p, 8, arr)
        }
        o.assume_init()
    }
}
