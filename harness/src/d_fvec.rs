//! Fixed vector: vector operations, spilling, and moving between places.
use crate::ctx::*;
use crate::d_vec::{mk, opt, toks, vals};
use crate::led::*;
use crate::talloc::*;
use eastl_rs::fixed_vector::FixedVector;
use moveit::drop_flag::DroppingFlag;
use moveit::{MoveNew, MoveRef, New};
use std::alloc::{alloc, dealloc, Layout};
use std::marker::PhantomData;
use std::mem::{size_of, MaybeUninit};
use std::ops::Deref;
use std::pin::Pin;

type F<const P: usize, const N: usize> = FixedVector<Elem<P>, N, TA>;

const G: usize = 64;
/// Storage for one object, surrounded by guard bytes; kept until the end of the history.
struct Place<T> {
    base: *mut u8,
    live: bool,
    _t: PhantomData<T>,
}
impl<T> Place<T> {
    fn lay() -> Layout {
        Layout::from_size_align(size_of::<T>() + 2 * G, G).unwrap()
    }
    fn new() -> Self {
        unsafe {
            let base = alloc(Self::lay());
            std::ptr::write_bytes(base, 0xB7, size_of::<T>() + 2 * G);
            std::ptr::write_bytes(base.add(G), 0xA5, size_of::<T>());
            Place { base, live: true, _t: PhantomData }
        }
    }
    fn ptr(&self) -> *mut T {
        unsafe { self.base.add(G) as *mut T }
    }
    /// The object is not here any more.
    fn vacate(&mut self) {
        self.live = false;
        unsafe { std::ptr::write_bytes(self.base.add(G), 0xDD, size_of::<T>()) }
    }
    fn intact(&self) -> bool {
        unsafe {
            let s = std::slice::from_raw_parts(self.base, size_of::<T>() + 2 * G);
            s[..G].iter().all(|b| *b == 0xB7)
                && s[G + size_of::<T>()..].iter().all(|b| *b == 0xB7)
                && (self.live || s[G..G + size_of::<T>()].iter().all(|b| *b == 0xDD))
        }
    }
}
impl<T> Drop for Place<T> {
    fn drop(&mut self) {
        unsafe { dealloc(self.base, Self::lay()) }
    }
}

pub fn run<const P: usize>(c: &mut Ctx, steps: &[Step]) {
    match c.geti("cap", 4) {
        1 => drive::<P, 1>(c, steps),
        2 => drive::<P, 2>(c, steps),
        3 => drive::<P, 3>(c, steps),
        4 => drive::<P, 4>(c, steps),
        7 => drive::<P, 7>(c, steps),
        33 => drive::<P, 33>(c, steps),
        300 => drive::<P, 300>(c, steps),
        n => panic!("inline size {n}"),
    }
}

fn build<const P: usize, const N: usize>(default: bool, at: &Place<F<P, N>>) {
    unsafe {
        let d = Pin::new_unchecked(&mut *(at.ptr() as *mut MaybeUninit<F<P, N>>));
        if default {
            F::<P, N>::new().new(d)
        } else {
            F::<P, N>::new_in(TA::default()).new(d)
        }
    }
}

fn drive<const P: usize, const N: usize>(c: &mut Ctx, steps: &[Step]) {
    let mut places: Vec<Place<F<P, N>>> = vec![];
    let mut w: Option<<F<P, N> as Deref>::Target> = None;
    let mut here = Place::new();
    build(false, &here);
    let mut there = true;
    let mut wb = 0;
    for st in steps {
        let a = &st.a;
        let x = |i: usize| a[i] as usize;
        let src: Vec<Elem<P>> = match st.op.as_str() {
            "append" | "assign" => mk(a),
            _ => vec![],
        };
        let a0 = mem().allocs;
        // a new place for the operations that need one
        let mut dst = matches!(st.op.as_str(), "new" | "newin" | "drop" | "move" | "adopt").then(Place::<F<P, N>>::new);
        let mut gone = false;
        let mut built = false;
        let d = dst.as_ref().map(|d| d.ptr());
        c.op(&st.op, a, st.fault, || {
            let v = unsafe { &mut *here.ptr() };
            match st.op.as_str() {
                "new" | "newin" | "drop" => {
                    gone = true;
                    unsafe { std::ptr::drop_in_place(here.ptr()) };
                    build(st.op == "new", dst.as_ref().unwrap());
                    built = true;
                }
                "adopt" => {
                    gone = true;
                    unsafe { std::ptr::drop_in_place(here.ptr()) };
                    unsafe { crate::cxx::fixed_vector::<P>(d.unwrap() as *mut u8, N, x(0), mk(&a[1..])) };
                    built = true;
                }
                "move" => {
                    gone = true;
                    let flag = DroppingFlag::new(());
                    DroppingFlag::flag(&flag).inc();
                    unsafe {
                        let src = MoveRef::into_pin(MoveRef::new_unchecked(v, DroppingFlag::flag(&flag)));
                        MoveNew::move_new(src, Pin::new_unchecked(&mut *(d.unwrap() as *mut MaybeUninit<F<P, N>>)));
                    }
                    built = true;
                }
                "push" => v.push(Elem::new(a[0])),
                "pop" => return opt(v.pop()),
                "insert" => v.insert(x(0), Elem::new(a[1])),
                "remove" => return opt(v.remove(x(0))),
                "append" => v.append(&src),
                "assign" => v.assign(&src),
                "clear" => v.clear(),
                "reserve" => v.reserve(x(0)),
                "set" => {
                    let e = Elem::new(a[1]);
                    v.as_slice_mut()[x(0)] = e
                }
                "swap" => v.swap(x(0), x(1)),
                "get" => return v.get(x(0)).map_or(vec![], |e| vec![e.val()]),
                "clone" => w = Some((**v).clone()),
                "dropw" => w = None,
                "fin" => {
                    gone = true;
                    unsafe { std::ptr::drop_in_place(here.ptr()) };
                    w = None;
                }
                o => panic!("op {o}"),
            }
            vec![]
        });
        drop(src);
        let rq = mem().allocs - a0;
        if gone && !built && st.op != "fin" {
            // the old one is gone all the same
            build(true, dst.as_ref().unwrap());
            built = true;
        }
        if gone {
            here.vacate();
            there = false;
            if let Some(d) = dst.take() {
                places.push(std::mem::replace(&mut here, d));
                there = built;
            }
        }
        if st.op == "clone" {
            wb = w.as_ref().map_or(0, |w| (w.capacity() > 0) as i64);
        } else if w.is_none() {
            wb = 0;
        }
        if c.obs {
            c.int("gd", (here.intact() && places.iter().all(|p| p.intact())) as i64);
            if there {
                let v = unsafe { &mut *here.ptr() };
                c.int("n", v.len() as i64);
                c.int("e", v.is_empty() as i64);
                c.int("mx", v.max_size() as i64);
                c.int("of", v.has_overflowed() as i64);
                if c.full() {
                    let cv = match c.step % 4 {
                        0 => vals(v.as_slice().iter()),
                        1 => vals(v.iter()),
                        2 => vals(AsRef::<[Elem<P>]>::as_ref(v).iter()),
                        _ => vals(v.as_slice_mut().iter()),
                    };
                    c.arr("c", &cv);
                    if c.step % 7 == 3 {
                        c.arr("dbg", &digits(&crate::ctx::show(v)));
                    }
                    if let Some(w) = w.as_ref() {
                        c.arr("w", &vals(w.iter()));
                    }
                }
                c.int("f", v.is_full() as i64);
                c.int("k", v.capacity() as i64);
                c.int("hb", mem().live.len() as i64 - wb);
                c.int("rq", rq);
                // where the slots are: all of them in the object, or none
                let (b, n) = (v.as_slice().as_ptr() as usize, v.capacity() * size_of::<Elem<P>>());
                let (lo, hi) = (here.ptr() as usize, here.ptr() as usize + size_of::<F<P, N>>());
                let inl = if b >= lo && b + n <= hi {
                    1
                } else if find(b, n).is_some() {
                    0
                } else {
                    2
                };
                c.int("inl", inl);
            }
        }
        let mut live = vec![];
        if c.own && there {
            let v = unsafe { &*here.ptr() };
            live.extend(toks(v.iter()));
        }
        if c.own {
            if let Some(w) = &w {
                live.extend(toks(w.iter()))
            }
        }
        c.own(&live);
        c.end();
        if st.op == "fin" {
            break;
        }
    }
}
