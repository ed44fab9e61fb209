use crate::ctx::*;
use crate::d_vec::{mk, opt, vals, HintIter};
use crate::led::*;
use crate::talloc::*;
use eastl_rs::fixed_list::FixedList;
use eastl_rs::list::List;
use moveit::Emplace;
use std::mem::{align_of, size_of};
use std::pin::Pin;

/// What every list variant offers.
pub trait Lst<const P: usize> {
    const OWN: usize;
    fn make(default: bool) -> Pin<Box<Self>>;
    fn push_back(&mut self, e: Elem<P>);
    fn push_front(&mut self, e: Elem<P>);
    fn pop_back(&mut self) -> Option<Elem<P>>;
    fn pop_front(&mut self) -> Option<Elem<P>>;
    fn front(&self) -> Option<&Elem<P>>;
    fn back(&self) -> Option<&Elem<P>>;
    fn front_mut(&mut self) -> Option<&mut Elem<P>>;
    fn back_mut(&mut self) -> Option<&mut Elem<P>>;
    fn clear(&mut self);
    fn lens(&self) -> Vec<i64>; // len(), size(), is_empty(), empty()
    fn iter(&self) -> Box<dyn Iterator<Item = &Elem<P>> + '_>;
    fn iter_mut(&mut self) -> Box<dyn Iterator<Item = &mut Elem<P>> + '_>;
    fn extend(&mut self, i: HintIter<Elem<P>>);
    fn dbg(&self) -> String;
}
macro_rules! common {
    () => {
        fn push_back(&mut self, e: Elem<P>) {
            (**self).push_back(e)
        }
        fn push_front(&mut self, e: Elem<P>) {
            (**self).push_front(e)
        }
        fn pop_back(&mut self) -> Option<Elem<P>> {
            (**self).pop_back()
        }
        fn pop_front(&mut self) -> Option<Elem<P>> {
            (**self).pop_front()
        }
        fn front(&self) -> Option<&Elem<P>> {
            (**self).front()
        }
        fn back(&self) -> Option<&Elem<P>> {
            (**self).back()
        }
        fn front_mut(&mut self) -> Option<&mut Elem<P>> {
            (**self).front_mut()
        }
        fn back_mut(&mut self) -> Option<&mut Elem<P>> {
            (**self).back_mut()
        }
        fn clear(&mut self) {
            (**self).clear()
        }
        fn iter(&self) -> Box<dyn Iterator<Item = &Elem<P>> + '_> {
            Box::new((**self).iter())
        }
        fn iter_mut(&mut self) -> Box<dyn Iterator<Item = &mut Elem<P>> + '_> {
            Box::new((**self).iter_mut())
        }
    };
}
/// A list behind one level of indirection, so that the inherent methods are called.
#[repr(transparent)]
pub struct W<T>(T);
impl<T> std::ops::Deref for W<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> std::ops::DerefMut for W<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}
fn wrap<T>(p: Pin<Box<T>>) -> Pin<Box<W<T>>> {
    unsafe { std::mem::transmute::<Pin<Box<T>>, Pin<Box<W<T>>>>(p) }
}
macro_rules! full {
    () => {
        fn lens(&self) -> Vec<i64> {
            vec![(**self).len() as i64, (**self).size() as i64, (**self).is_empty() as i64, (**self).empty() as i64]
        }
        fn extend(&mut self, i: HintIter<Elem<P>>) {
            (**self).extend(i)
        }
        fn dbg(&self) -> String {
            crate::ctx::show(&self.0)
        }
    };
}
impl<const P: usize> Lst<P> for W<List<Elem<P>, TA>> {
    const OWN: usize = 0;
    fn make(default: bool) -> Pin<Box<Self>> {
        wrap(unsafe {
            if default {
                Box::emplace(List::<Elem<P>, TA>::new())
            } else {
                Box::emplace(List::<Elem<P>, TA>::new_in(TA::default()))
            }
        })
    }
    common!();
    full!();
}
impl<const P: usize, const N: usize> Lst<P> for W<FixedList<Elem<P>, N, TA>> {
    const OWN: usize = N;
    fn make(default: bool) -> Pin<Box<Self>> {
        wrap(unsafe {
            if default {
                Box::emplace(FixedList::<Elem<P>, N, TA>::new_with_default_overflow_allocator())
            } else {
                Box::emplace(FixedList::<Elem<P>, N, TA>::new_in(TA::default()))
            }
        })
    }
    common!();
    full!();
}
#[cfg(feature = "nightly")]
mod conf {
    use super::*;
    use eastl_rs::fixed_list::conformant::FixedList as CFixedList;
    macro_rules! conf {
        ($n:literal, $($p:literal),*) => {$(
            impl Lst<$p> for W<CFixedList<Elem<$p>, $n, TA>> {
                const OWN: usize = $n;
                fn make(default: bool) -> Pin<Box<Self>> {
                    wrap(unsafe {
                        if default {
                            Box::emplace(CFixedList::<Elem<$p>, $n, TA>::new_with_default_overflow_allocator())
                        } else {
                            Box::emplace(CFixedList::<Elem<$p>, $n, TA>::new_in(TA::default()))
                        }
                    })
                }
                confcommon!($p);
                fn lens(&self) -> Vec<i64> {
                    vec![self.0.len() as i64, self.0.size() as i64, self.0.is_empty() as i64, self.0.is_empty() as i64]
                }
                fn extend(&mut self, i: HintIter<Elem<$p>>) {
                    for e in i {
                        self.0.push_back(e)
                    }
                }
                fn dbg(&self) -> String {
                    crate::ctx::show(&self.0)
                }
            }
        )*};
    }
    macro_rules! confcommon {
        ($p:literal) => {
            fn push_back(&mut self, e: Elem<$p>) {
                self.0.push_back(e)
            }
            fn push_front(&mut self, e: Elem<$p>) {
                self.0.push_front(e)
            }
            fn pop_back(&mut self) -> Option<Elem<$p>> {
                self.0.pop_back()
            }
            fn pop_front(&mut self) -> Option<Elem<$p>> {
                self.0.pop_front()
            }
            fn front(&self) -> Option<&Elem<$p>> {
                self.0.front()
            }
            fn back(&self) -> Option<&Elem<$p>> {
                self.0.back()
            }
            fn front_mut(&mut self) -> Option<&mut Elem<$p>> {
                self.0.front_mut()
            }
            fn back_mut(&mut self) -> Option<&mut Elem<$p>> {
                self.0.back_mut()
            }
            fn clear(&mut self) {
                self.0.clear()
            }
            fn iter(&self) -> Box<dyn Iterator<Item = &Elem<$p>> + '_> {
                Box::new(self.0.iter())
            }
            fn iter_mut(&mut self) -> Box<dyn Iterator<Item = &mut Elem<$p>> + '_> {
                Box::new(self.0.iter_mut())
            }
        };
    }
    conf!(1, 0, 1, 2, 9);
    conf!(2, 0, 1, 2, 9);
    conf!(3, 0, 1, 2, 9);
    conf!(4, 0, 1, 2, 9);
    conf!(8, 0, 1, 2, 9);
    conf!(33, 0, 1, 2, 9);
    conf!(300, 0, 1, 2, 9);
    pub fn run_conf<const P: usize>(c: &mut Ctx, steps: &[Step], n: i64) {
        macro_rules! go {
            ($($n:literal),*; $($p:literal),*) => { go!(@ [$($p),*] $($n),*) };
            (@ $ps:tt $($n:literal),*) => { match n { $($n => go!(@@ $n $ps),)* _ => panic!("node count") } };
            (@@ $n:literal [$($p:literal),*]) => { match P { $($p => super::drive::<$p, W<CFixedList<Elem<$p>, $n, TA>>>(c, steps),)* _ => panic!("es") } };
        }
        go!(1, 2, 3, 4, 8, 33, 300; 0, 1, 2, 9)
    }
}

#[repr(C)]
struct RawNode {
    next: usize,
    prev: usize,
}

/// Is `[a, a+len)` inside memory that belongs to the list: a live block, or the list object itself?
fn place(obj: usize, osz: usize, a: usize, len: usize) -> Option<Vec<i64>> {
    if a >= obj && a < obj + osz {
        return if a + len <= obj + osz { Some(vec![1, (a - obj) as i64, 0]) } else { None };
    }
    find(a, len).map(|(b, o)| vec![0, b.id, if b.size == len { o as i64 } else { -1 }])
}

fn ring<const P: usize>(obj: usize, osz: usize, back: bool) -> (Vec<i64>, Vec<Vec<i64>>) {
    let nsz = size_of::<(usize, usize, Elem<P>)>();
    let voff = 16usize; // after the two links, aligned (elements are 4-aligned)
    let (mut v, mut pl) = (vec![], vec![]);
    unsafe {
        let s = &*(obj as *const RawNode);
        let mut cur = if back { s.prev } else { s.next };
        let mut guard = 0;
        while cur != obj {
            match place(obj, osz, cur, nsz) {
                Some(p) => pl.push(p),
                None => {
                    v.push(-9);
                    pl.push(vec![-1, 0, 0]);
                    return (v, pl);
                }
            }
            v.push((*((cur + voff) as *const Elem<P>)).val());
            let n = &*(cur as *const RawNode);
            cur = if back { n.prev } else { n.next };
            guard += 1;
            if guard > 1 << 16 {
                v.push(-8);
                return (v, pl);
            }
        }
    }
    (v, pl)
}
fn tk<const P: usize>(e: &Elem<P>) -> i64 {
    if e.alive() {
        e.tok()
    } else {
        -e.tok().abs() - 1
    }
}

pub fn drive<const P: usize, L: Lst<P>>(c: &mut Ctx, steps: &[Step]) {
    let osz = size_of::<L>();
    let mut v: Option<Pin<Box<L>>> = Some(L::make(true));
    for st in steps {
        let a = &st.a;
        let x = |i: usize| a[i] as usize;
        let mut extra: Option<Vec<i64>> = None;
        c.op(&st.op, a, st.fault, || {
            match st.op.as_str() {
                "new" | "drop" | "newin" => {
                    drop(v.replace(L::make(st.op != "newin")));
                    return vec![];
                }
                "adopt" => {
                    let mut n = L::make(true);
                    unsafe {
                        let o = n.as_mut().get_unchecked_mut() as *mut L;
                        std::ptr::drop_in_place(o);
                        crate::cxx::list::<P>(o as *mut u8, osz, L::OWN, a)
                    };
                    v = Some(n);
                    return vec![];
                }
                "fin" => {
                    v = None;
                    return vec![];
                }
                "extref" => {
                    // a scratch list of plain numbers, extended by reference in two halves
                    let mut l = unsafe { Box::emplace(List::<i64, TA>::new()) };
                    let l = unsafe { l.as_mut().get_unchecked_mut() };
                    let h = a.len() / 2;
                    l.extend(&a[..h]);
                    l.extend(a[h..].iter());
                    return l.iter().copied().collect();
                }
                _ => {}
            }
            let d = unsafe { v.as_mut().unwrap().as_mut().get_unchecked_mut() };
            match st.op.as_str() {
                "pushbn" => {
                    for i in 0..a[1] {
                        d.push_back(Elem::new(a[0] + i))
                    }
                }
                "pushfn" => {
                    for i in 0..a[1] {
                        d.push_front(Elem::new(a[0] + i))
                    }
                }
                "popbn" => return (0..a[0]).flat_map(|_| opt(d.pop_back())).collect(),
                "popfn" => return (0..a[0]).flat_map(|_| opt(d.pop_front())).collect(),
                "pushb" => d.push_back(Elem::new(a[0])),
                "pushf" => d.push_front(Elem::new(a[0])),
                "popb" => return opt(d.pop_back()),
                "popf" => return opt(d.pop_front()),
                "clear" => d.clear(),
                "extend" => d.extend(HintIter { v: mk::<P>(&a[1..]).into_iter(), exact: a[0] == 0 }),
                "setf" => *d.front_mut().unwrap() = Elem::new(a[0]),
                "setb" => *d.back_mut().unwrap() = Elem::new(a[0]),
                "set" => *d.iter_mut().nth(x(0)).unwrap() = Elem::new(a[1]),
                "nth" => return if a[0] == 0 { d.iter().nth(a[1] as usize).map(|e| e.val()) } else { d.iter_mut().nth(a[1] as usize).map(|e| e.val()) }.map_or(vec![], |v| vec![v]),
                "last" => return if a[0] == 0 { d.iter().last().map(|e| e.val()) } else { d.iter_mut().last().map(|e| e.val()) }.map_or(vec![], |v| vec![v]),
                "iter" => {
                    let mut r = vec![];
                    let mut step = |e: Option<i64>| if let Some(e) = e { r.push(e) };
                    let sh = if a[0] == 0 {
                        let mut i = d.iter();
                        for _ in 0..x(1) {
                            step(i.next().map(|e| e.val()))
                        }
                        i.size_hint()
                    } else {
                        let mut i = d.iter_mut();
                        for _ in 0..x(1) {
                            step(i.next().map(|e| e.val()))
                        }
                        i.size_hint()
                    };
                    extra = Some(vec![sh.0.min(1 << 30) as i64, sh.1.map_or(-1, |x| x.min(1 << 30) as i64)]);
                    return r;
                }
                o => panic!("op {o}"),
            }
            vec![]
        });
        if let Some(e) = extra {
            c.arr("ih", &e)
        }
        let full = c.full();
        if let Some(v) = v.as_mut() {
            let d = unsafe { v.as_mut().get_unchecked_mut() };
            let obj = d as *const L as usize;
            if c.obs {
                c.arr("n", &d.lens());
                let one = |e: Option<&Elem<P>>| e.map_or(vec![], |e| vec![e.val()]);
                let (f, b) = if c.step % 2 == 0 {
                    (one(d.front()), one(d.back()))
                } else {
                    (one(d.front_mut().map(|e| &*e)), one(d.back_mut().map(|e| &*e)))
                };
                c.arr("fr", &f);
                c.arr("bk", &b);
                if full {
                    let cv: Vec<i64> = if c.step % 3 == 0 { d.iter_mut().map(|e| e.val()).collect() } else { vals(d.iter()) };
                    c.arr("c", &cv);
                    if c.step % 5 == 2 {
                        c.arr("dbg", &digits(&d.dbg()));
                    }
                }
            }
            if c.lay && full {
                let (f, pl) = ring::<P>(obj, osz, false);
                let (b, _) = ring::<P>(obj, osz, true);
                c.arr("rf", &f);
                c.arr("rb", &b);
                c.int("cnt", unsafe { *((obj + 16) as *const u32) } as i64);
                c.arr2("pl", &pl);
                c.arr("geo", &[
                    osz as i64,
                    size_of::<(usize, usize, Elem<P>)>() as i64,
                    align_of::<usize>() as i64,
                    (obj % 8) as i64,
                ]);
            }
        }
        let mut live = vec![];
        if c.own {
            if let Some(v) = v.as_ref() {
                live.extend(v.iter().map(tk))
            }
        }
        c.own(&live);
        c.end();
    }
}

pub fn run<const P: usize>(c: &mut Ctx, steps: &[Step]) {
    drive::<P, W<List<Elem<P>, TA>>>(c, steps)
}
pub fn run_fixed<const P: usize>(c: &mut Ctx, steps: &[Step]) {
    let n = c.geti("nodes", 1);
    if c.geti("conf", 0) == 1 {
        #[cfg(feature = "nightly")]
        {
            return conf::run_conf::<P>(c, steps, n);
        }
        #[cfg(not(feature = "nightly"))]
        panic!("conformant lists need the nightly driver")
    }
    match n {
        1 => drive::<P, W<FixedList<Elem<P>, 1, TA>>>(c, steps),
        2 => drive::<P, W<FixedList<Elem<P>, 2, TA>>>(c, steps),
        3 => drive::<P, W<FixedList<Elem<P>, 3, TA>>>(c, steps),
        4 => drive::<P, W<FixedList<Elem<P>, 4, TA>>>(c, steps),
        8 => drive::<P, W<FixedList<Elem<P>, 8, TA>>>(c, steps),
        33 => drive::<P, W<FixedList<Elem<P>, 33, TA>>>(c, steps),
        300 => drive::<P, W<FixedList<Elem<P>, 300, TA>>>(c, steps),
        _ => panic!("node count"),
    }
}
