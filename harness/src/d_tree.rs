//! Map, set and fixed maps over red-black tree images laid out the way C++ code leaves them.
use crate::ctx::*;
use crate::led::*;
use crate::talloc::*;
use eastl_rs::compare::{Compare, Greater, Less};
use eastl_rs::fixed_map::{FixedMap, FixedMapWithOverflow};
use eastl_rs::map::Map;
use eastl_rs::set::Set;
use eastl_rs::verif::{FixedPool, FixedPoolWithOverflow};
use eastl_rs::Allocator;
use moveit::Emplace;
use std::mem::{size_of, ManuallyDrop};
use std::pin::Pin;

type K<const P: usize> = Elem<P>;
/// Values are laid out differently from keys.
type V = Elem<2>;

/// Orders by class only: 2i and 2i+1 are equivalent.
#[derive(Default)]
pub struct ByHalf(#[allow(dead_code)] u8);
impl<const P: usize> Compare<K<P>> for ByHalf {
    fn compare(l: &K<P>, r: &K<P>) -> bool {
        fault_point(Fk::Cmp);
        if !l.alive() || !r.alive() {
            led().errs.push("cmp-dead");
        }
        l.key() / 2 < r.key() / 2
    }
}

#[repr(C)]
struct Node<A, B> {
    right: usize,
    left: usize,
    parent: usize, // color in the low bit
    pair: (A, B),
}
/// The words of the tree object.
#[repr(C)]
struct Anchor {
    compare: usize,
    right: usize,
    left: usize,
    parent: usize,
    size: u32,
    alloc: u32,
}

fn tk<const P: usize>(e: &Elem<P>) -> i64 {
    if e.alive() {
        e.tok()
    } else {
        -e.tok().abs() - 1
    }
}

trait Tr<const P: usize>: Sized {
    type Val;
    const OWN: i64; // nodes of its own
    fn make(i: i64) -> Pin<Box<Self>>;
    fn value(v: i64) -> Self::Val;
    fn alloc(&mut self) -> *mut Node<K<P>, Self::Val>;
    fn free(&mut self, p: *mut Node<K<P>, Self::Val>);
    fn has(&self, k: &K<P>) -> bool;
    fn get(&self, k: &K<P>) -> Option<i64>;
    fn set(&mut self, k: &K<P>, v: i64) -> Option<i64>;
    fn walk(&self, m: usize) -> Vec<i64>;
    fn walk_mut(&mut self, m: usize, d: i64) -> Vec<i64>;
    fn toks(&self) -> Vec<i64>;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn dbg(&self) -> Option<String>;
    fn base(&mut self) -> *mut Anchor {
        self as *mut Self as *mut Anchor
    }
}

unsafe fn ta(a: *mut Anchor) -> ManuallyDrop<TA> {
    ManuallyDrop::new(TA { id: (*a).alloc })
}

macro_rules! mapper {
    () => {
        type Val = V;
        fn value(v: i64) -> V {
            Elem::new(v)
        }
        fn has(&self, k: &K<P>) -> bool {
            (**self).contains_key(k)
        }
        fn get(&self, k: &K<P>) -> Option<i64> {
            (**self).get(k).map(|v| v.val())
        }
        fn set(&mut self, k: &K<P>, v: i64) -> Option<i64> {
            (**self).get_mut(k).map(|x| {
                let o = x.val();
                *x = Elem::new(v);
                o
            })
        }
        fn walk(&self, m: usize) -> Vec<i64> {
            let mut it = unsafe { (**self).iter() };
            let mut r = vec![];
            for _ in 0..m {
                if let Some((k, v)) = it.next() {
                    r.push(k.val());
                    r.push(v.val());
                }
            }
            r
        }
        fn walk_mut(&mut self, m: usize, d: i64) -> Vec<i64> {
            let mut it = unsafe { (**self).iter_mut() };
            let mut r = vec![];
            for i in 0..m {
                if let Some((k, v)) = it.next() {
                    r.push(k.val());
                    r.push(v.val());
                    *v = Elem::new(d + i as i64);
                }
            }
            r
        }
        fn toks(&self) -> Vec<i64> {
            unsafe { (**self).iter() }.flat_map(|(k, v)| [tk(k), tk(v)]).take(20_000).collect()
        }
        fn len(&self) -> usize {
            (**self).len()
        }
        fn is_empty(&self) -> bool {
            (**self).is_empty()
        }
        fn clear(&mut self) {
            (**self).clear()
        }
        fn dbg(&self) -> Option<String> {
            Some(crate::ctx::show(&**self))
        }
    };
}
/// One level of indirection, as the fixed maps have.
#[repr(transparent)]
struct W<T>(T);
impl<T> std::ops::Deref for W<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> std::ops::DerefMut for W<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
impl<const P: usize, C: Compare<K<P>> + Default> Tr<P> for W<Map<K<P>, V, TA, C>> {
    const OWN: i64 = 0;
    fn make(i: i64) -> Pin<Box<Self>> {
        Box::pin(W(match i % 3 {
            0 => Map::with_allocator(TA::default()),
            1 => Map::with_compare(C::default()),
            _ => Map::with_allocator_and_compare(TA::default(), C::default()),
        }))
    }
    fn alloc(&mut self) -> *mut Node<K<P>, V> {
        unsafe { ta(self.base()).allocate(1) }
    }
    fn free(&mut self, p: *mut Node<K<P>, V>) {
        unsafe { ta(self.base()).deallocate(p, 1) }
    }
    mapper!();
}
impl<const P: usize, const N: usize, C: Compare<K<P>> + Default> Tr<P> for FixedMap<K<P>, V, N, C> {
    const OWN: i64 = N as i64;
    fn make(_: i64) -> Pin<Box<Self>> {
        unsafe { Box::emplace(FixedMap::<K<P>, V, N, C>::new()) }
    }
    fn alloc(&mut self) -> *mut Node<K<P>, V> {
        unsafe { (*(self.base().add(1) as *mut FixedPool<Node<K<P>, V>>)).allocate(1) }
    }
    fn free(&mut self, p: *mut Node<K<P>, V>) {
        unsafe { (*(self.base().add(1) as *mut FixedPool<Node<K<P>, V>>)).deallocate(p, 1) }
    }
    mapper!();
}
impl<const P: usize, const N: usize, C: Compare<K<P>> + Default> Tr<P> for FixedMapWithOverflow<K<P>, V, N, TA, C> {
    const OWN: i64 = N as i64;
    fn make(_: i64) -> Pin<Box<Self>> {
        unsafe { Box::emplace(FixedMapWithOverflow::<K<P>, V, N, TA, C>::new()) }
    }
    fn alloc(&mut self) -> *mut Node<K<P>, V> {
        unsafe { (*(self.base().add(1) as *mut FixedPoolWithOverflow<Node<K<P>, V>, TA>)).allocate(1) }
    }
    fn free(&mut self, p: *mut Node<K<P>, V>) {
        unsafe { (*(self.base().add(1) as *mut FixedPoolWithOverflow<Node<K<P>, V>, TA>)).deallocate(p, 1) }
    }
    mapper!();
}
impl<const P: usize, C: Compare<K<P>> + Default> Tr<P> for Set<K<P>, TA, C> {
    type Val = ();
    const OWN: i64 = 0;
    fn make(i: i64) -> Pin<Box<Self>> {
        Box::pin(match i % 3 {
            0 => Set::with_allocator(TA::default()),
            1 => Set::with_compare(C::default()),
            _ => Set::with_allocator_and_compare(TA::default(), C::default()),
        })
    }
    fn value(_: i64) {}
    fn alloc(&mut self) -> *mut Node<K<P>, ()> {
        unsafe { ta(self.base()).allocate(1) }
    }
    fn free(&mut self, p: *mut Node<K<P>, ()>) {
        unsafe { ta(self.base()).deallocate(p, 1) }
    }
    fn has(&self, k: &K<P>) -> bool {
        self.contains_key(k)
    }
    fn get(&self, _: &K<P>) -> Option<i64> {
        panic!("get on a set")
    }
    fn set(&mut self, _: &K<P>, _: i64) -> Option<i64> {
        panic!("set on a set")
    }
    fn walk(&self, m: usize) -> Vec<i64> {
        let mut it = unsafe { self.iter() };
        let mut r = vec![];
        for _ in 0..m {
            r.extend(it.next().map(|k| k.val()));
        }
        r
    }
    fn walk_mut(&mut self, _: usize, _: i64) -> Vec<i64> {
        panic!("iter_mut on a set")
    }
    fn toks(&self) -> Vec<i64> {
        unsafe { self.iter() }.map(tk).take(20_000).collect()
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn is_empty(&self) -> bool {
        self.is_empty()
    }
    fn clear(&mut self) {
        self.clear()
    }
    fn dbg(&self) -> Option<String> {
        None
    }
}

/// Lay out a tree: a = root, then (key, value, left, right, color) per node; nodes are numbered from 1.
fn build<const P: usize, M: Tr<P>>(d: &mut M, a: &[i64]) {
    let n = (a.len() - 1) / 5;
    let base = d.base();
    unsafe {
        let anchor = std::ptr::addr_of_mut!((*base).right) as usize;
        let at: Vec<*mut Node<K<P>, M::Val>> = (0..n).map(|_| d.alloc()).collect();
        assert!(at.iter().all(|p| !p.is_null()));
        let of = |i: i64| if i == 0 { 0 } else { at[i as usize - 1] as usize };
        for (i, p) in at.iter().enumerate() {
            let f = &a[1 + i * 5..][..5];
            let parent = (1..=n as i64).find(|j| {
                let g = &a[1 + (*j as usize - 1) * 5..][..5];
                g[2] == i as i64 + 1 || g[3] == i as i64 + 1
            });
            let up = parent.map_or(anchor, of);
            p.write(Node { right: of(f[3]), left: of(f[2]), parent: up | f[4] as usize, pair: (Elem::new(f[0]), M::value(f[1])) });
        }
        let mut first = a[0];
        let mut last = a[0];
        if n > 0 {
            while a[1 + (first as usize - 1) * 5 + 2] != 0 {
                first = a[1 + (first as usize - 1) * 5 + 2];
            }
            while a[1 + (last as usize - 1) * 5 + 3] != 0 {
                last = a[1 + (last as usize - 1) * 5 + 3];
            }
        }
        (*base).right = if n == 0 { anchor } else { of(first) };
        (*base).left = if n == 0 { anchor } else { of(last) };
        (*base).parent = of(a[0]);
        (*base).size = n as u32;
    }
}

fn drive<const P: usize, M: Tr<P>>(c: &mut Ctx, steps: &[Step]) {
    let mut d: Option<Pin<Box<M>>> = Some(M::make(c.geti("ctor", 0)));
    for st in steps {
        let a = &st.a;
        let x = |i: usize| a[i] as usize;
        let probe: Option<K<P>> = matches!(st.op.as_str(), "has" | "get" | "set").then(|| Elem::new(a[0]));
        c.op(&st.op, a, st.fault, || {
            match st.op.as_str() {
                "new" => {
                    drop(d.replace(M::make(a[0])));
                    return vec![];
                }
                "fin" => {
                    d = None;
                    return vec![];
                }
                _ => {}
            }
            let d: &mut M = unsafe { d.as_mut().unwrap().as_mut().get_unchecked_mut() };
            match st.op.as_str() {
                "build" => build(d, a),
                "has" => return vec![d.has(probe.as_ref().unwrap()) as i64],
                "get" => return d.get(probe.as_ref().unwrap()).map_or(vec![], |v| vec![v]),
                "set" => return d.set(probe.as_ref().unwrap(), a[1]).map_or(vec![], |v| vec![v]),
                "iter" => return d.walk(x(0)),
                "itermut" => return d.walk_mut(x(0), a[1]),
                "clear" => d.clear(),
                // how many nodes can still be had from a map without overflow
                "room" => {
                    let mut got = vec![];
                    loop {
                        let p = d.alloc();
                        if p.is_null() {
                            break;
                        }
                        got.push(p);
                    }
                    let n = got.len() as i64;
                    for p in got {
                        d.free(p);
                    }
                    return vec![n];
                }
                o => panic!("op {o}"),
            }
            vec![]
        });
        drop(probe);
        let mut live = vec![];
        if let Some(d) = d.as_mut() {
            let d: &mut M = unsafe { d.as_mut().get_unchecked_mut() };
            if c.obs {
                c.int("n", d.len() as i64);
                c.int("e", d.is_empty() as i64);
                if c.full() {
                    c.arr("c", &d.walk(d.len() + 1));
                    if c.step % 5 == 1 {
                        if let Some(s) = d.dbg() {
                            c.arr("dbg", &digits(&s));
                        }
                    }
                }
            }
            if c.lay {
                // nodes in the object itself, and blocks elsewhere
                let base = d.base();
                let (lo, hi) = (base as usize, base as usize + size_of::<M>());
                let mut todo = vec![unsafe { (*base).parent }];
                let (mut inl, mut out) = (0, 0);
                while let Some(p) = todo.pop() {
                    if p == 0 {
                        continue;
                    }
                    if lo <= p && p + size_of::<Node<K<P>, M::Val>>() <= hi {
                        inl += 1;
                    } else {
                        out += 1;
                    }
                    let n = p as *const Node<K<P>, M::Val>;
                    unsafe {
                        todo.push((*n).left);
                        todo.push((*n).right);
                    }
                }
                let _ = M::OWN;
                c.arr("z", &[inl, out, mem().live.len() as i64]);
            }
            if c.own {
                live = d.toks();
            }
        }
        c.own(&live);
        c.end();
    }
}

fn kinds<const P: usize, C: Compare<K<P>> + Default>(c: &mut Ctx, steps: &[Step]) {
    match (c.geti("tk", 0), c.geti("cap", 2)) {
        (0, _) => drive::<P, W<Map<K<P>, V, TA, C>>>(c, steps),
        (1, _) => drive::<P, Set<K<P>, TA, C>>(c, steps),
        (2, 2) => drive::<P, FixedMap<K<P>, V, 2, C>>(c, steps),
        (2, 5) => drive::<P, FixedMap<K<P>, V, 5, C>>(c, steps),
        (2, 40) => drive::<P, FixedMap<K<P>, V, 40, C>>(c, steps),
        (3, 2) => drive::<P, FixedMapWithOverflow<K<P>, V, 2, TA, C>>(c, steps),
        (3, 5) => drive::<P, FixedMapWithOverflow<K<P>, V, 5, TA, C>>(c, steps),
        (3, 40) => drive::<P, FixedMapWithOverflow<K<P>, V, 40, TA, C>>(c, steps),
        k => panic!("tree kind {k:?}"),
    }
}
fn orders<const P: usize>(c: &mut Ctx, steps: &[Step]) {
    match c.geti("cmp", 0) {
        0 => kinds::<P, Less<K<P>>>(c, steps),
        1 => kinds::<P, Greater<K<P>>>(c, steps),
        _ => kinds::<P, ByHalf>(c, steps),
    }
}
pub fn run(c: &mut Ctx, steps: &[Step]) {
    match c.geti("es", 4) {
        #[cfg(feature = "tiny")]
        2 => orders::<1>(c, steps),
        #[cfg(feature = "tiny")]
        5 => orders::<4>(c, steps),
        #[cfg(feature = "tiny")]
        64 => orders::<63>(c, steps),
        #[cfg(not(feature = "tiny"))]
        4 => orders::<0>(c, steps),
        #[cfg(not(feature = "tiny"))]
        12 => orders::<2>(c, steps),
        #[cfg(not(feature = "tiny"))]
        40 => orders::<9>(c, steps),
        _ => panic!("key size"),
    }
}
