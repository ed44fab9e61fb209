use crate::ctx::*;
use crate::d_vec::{mk, opt, vals, HintIter};
use crate::led::*;
use crate::talloc::*;
use eastl_rs::deque::iter::{IntoIter, Iter, IterMut};
use eastl_rs::{Deque, Queue};
use std::mem::{size_of, take};

type D<const P: usize> = Deque<'static, Elem<P>, TA>;
type Q<const P: usize> = Queue<'static, Elem<P>, TA>;

pub enum It<const P: usize> {
    None,
    S(Iter<'static, Elem<P>>),
    M(IterMut<'static, Elem<P>>),
    I(IntoIter<'static, Elem<P>, TA>),
}
impl<const P: usize> Default for It<P> {
    fn default() -> Self {
        It::None
    }
}
impl<const P: usize> It<P> {
    fn hint(&self) -> Vec<i64> {
        let h = match self {
            It::None => return vec![],
            It::S(i) => i.size_hint(),
            It::M(i) => i.size_hint(),
            It::I(i) => i.size_hint(),
        };
        vec![h.0.min(1 << 30) as i64, h.1.map_or(-1, |x| x.min(1 << 30) as i64)]
    }
    /// One step from either end; `w` is written through a mutable iterator.
    fn step(&mut self, back: bool, w: Option<i64>) -> Vec<i64> {
        match self {
            It::None => panic!("no iterator"),
            It::S(i) => if back { i.next_back() } else { i.next() }.map_or(vec![], |e| vec![e.val()]),
            It::M(i) => if back { i.next_back() } else { i.next() }.map_or(vec![], |e| {
                let v = e.val();
                if let Some(w) = w {
                    *e = Elem::new(w)
                }
                vec![v]
            }),
            It::I(i) => opt(if back { i.next_back() } else { i.next() }),
        }
    }
    /// A jump over `n` elements from either end.
    fn jump(&mut self, back: bool, n: usize) -> Vec<i64> {
        match self {
            It::None => panic!("no iterator"),
            It::S(i) => if back { i.nth_back(n) } else { i.nth(n) }.map_or(vec![], |e| vec![e.val()]),
            It::M(i) => if back { i.nth_back(n) } else { i.nth(n) }.map_or(vec![], |e| vec![e.val()]),
            It::I(i) => opt(if back { i.nth_back(n) } else { i.nth(n) }),
        }
    }
    fn count(self) -> Vec<i64> {
        vec![match self {
            It::None => 0,
            It::S(i) => i.count(),
            It::M(i) => i.count(),
            It::I(i) => i.count(),
        } as i64]
    }
    fn last(self) -> Vec<i64> {
        match self {
            It::None => vec![],
            It::S(i) => i.last().map_or(vec![], |e| vec![e.val()]),
            It::M(i) => i.last().map_or(vec![], |e| vec![e.val()]),
            It::I(i) => opt(i.last()),
        }
    }
    /// To the C++ iterator pair and back.
    fn compat(self, k: i64) -> Self {
        match self {
            It::None => It::None,
            It::S(i) => {
                let (b, e) = i.into_compat();
                It::S(unsafe { Iter::from_compat(b, e) })
            }
            It::M(i) => {
                if k == 0 {
                    let (b, e) = i.into_compat_mut();
                    It::M(unsafe { IterMut::from_compat(b, e) })
                } else if k == 1 {
                    let (b, e) = i.into_compat();
                    It::S(unsafe { Iter::from_compat(b, e) })
                } else {
                    let (b, e) = i.into_compat_mut();
                    It::S(unsafe { Iter::from_compat(b.into(), (&e).into()) })
                }
            }
            It::I(i) => It::I(i),
        }
    }
    fn rest(self, rev: bool) -> Vec<i64> {
        let mut r = vec![];
        match self {
            It::None => {}
            It::S(i) => {
                if rev {
                    r = vals(i.rev())
                } else {
                    r = vals(i)
                }
            }
            It::M(i) => {
                if rev {
                    i.rev().for_each(|e| r.push(e.val()))
                } else {
                    i.for_each(|e| r.push(e.val()))
                }
            }
            It::I(i) => {
                if rev {
                    i.rev().for_each(|e| r.push(e.taken()))
                } else {
                    i.for_each(|e| r.push(e.taken()))
                }
            }
        }
        r
    }
    fn live(&self) -> Option<Vec<i64>> {
        match self {
            It::I(i) => {
                if size_of::<IntoIter<'static, Elem<P>, TA>>() == size_of::<D<P>>() {
                    let im = Image::<P>::read(i as *const _ as *const u8);
                    Some(im.walk().iter().map(|e| tk(*e)).collect())
                } else {
                    None
                }
            }
            _ => Some(vec![]),
        }
    }
}
fn tk<const P: usize>(e: *const Elem<P>) -> i64 {
    if e.is_null() {
        return -1;
    }
    let e = unsafe { &*e };
    if e.alive() {
        e.tok()
    } else {
        -e.tok().abs() - 1
    }
}

/// The C++-visible image of a deque.
pub struct Image<const P: usize> {
    ptr_array: usize,
    size: u32,
    b: [usize; 4],
    e: [usize; 4],
}
const SUB: [usize; 5] = [64, 32, 16, 8, 4];
pub fn block_len(es: usize) -> usize {
    match es {
        0..=4 => SUB[0],
        5..=8 => SUB[1],
        9..=16 => SUB[2],
        17..=32 => SUB[3],
        _ => SUB[4],
    }
}
impl<const P: usize> Image<P> {
    const ES: usize = size_of::<Elem<P>>();
    pub fn read(p: *const u8) -> Self {
        unsafe {
            Image {
                ptr_array: *(p as *const usize),
                size: *(p.add(8) as *const u32),
                b: *(p.add(16) as *const [usize; 4]),
                e: *(p.add(48) as *const [usize; 4]),
            }
        }
    }
    /// EASTL's own walk: from begin.current, block end to the next block of the pointer array, until end.current.
    /// Null entries mark a step that left allocated memory.
    pub fn walk(&self) -> Vec<*const Elem<P>> {
        let mut v = vec![];
        let (mut cur, mut end, mut arr) = (self.b[0], self.b[2], self.b[3]);
        let mut guard = 0;
        let mut known = (0, 0); // a block already looked up
        while cur != self.e[0] {
            let inb = cur >= known.0 && cur + Self::ES <= known.1;
            if !inb {
                match find(cur, Self::ES) {
                    Some((b, _)) => known = (b.addr, b.addr + b.size),
                    None => {
                        v.push(std::ptr::null());
                        return v;
                    }
                }
            }
            v.push(cur as *const Elem<P>);
            cur += Self::ES;
            if cur == end {
                arr += 8;
                if find(arr, 8).is_none() {
                    v.push(std::ptr::null());
                    return v;
                }
                cur = unsafe { *(arr as *const usize) };
                end = cur + block_len(Self::ES) * Self::ES;
            }
            guard += 1;
            if guard > 1 << 20 {
                v.push(std::ptr::null());
                return v;
            }
        }
        v
    }
    /// [pointer array size as allocated, recorded size, begin slot, begin offset, end slot, end offset],
    /// blocks of the slots from begin to end as (block id, size in elements),
    /// consistency bits of the two positions.
    pub fn log(&self, c: &mut Ctx) {
        let es = Self::ES as i64;
        let (arr, off) = match find(self.ptr_array, 8) {
            Some((b, o)) => (b.size as i64 / 8, o as i64),
            None => (-1, -1),
        };
        let slot = |it: &[usize; 4]| (it[3] as i64 - self.ptr_array as i64) / 8;
        let pos = |it: &[usize; 4]| (it[0] as i64 - it[1] as i64) / es;
        let span = |it: &[usize; 4]| (it[2] as i64 - it[1] as i64) / es;
        c.arr("img", &[arr, off, self.size as i64, slot(&self.b), pos(&self.b), span(&self.b), slot(&self.e), pos(&self.e), span(&self.e)]);
        let mut blocks = vec![];
        let (s0, s1) = (slot(&self.b), slot(&self.e));
        let mut agree = 1;
        if arr > 0 && s0 >= 0 && s1 < arr && s0 <= s1 && s1 - s0 < 1 << 20 {
            for s in s0..=s1 {
                let p = unsafe { *((self.ptr_array as i64 + 8 * s) as *const usize) };
                if s == s0 && p != self.b[1] || s == s1 && p != self.e[1] {
                    agree = 0
                }
                match find(p, 1) {
                    Some((b, 0)) => blocks.push(vec![b.id, b.size as i64 / es, b.size as i64 % es]),
                    Some((b, o)) => blocks.push(vec![b.id, -1, o as i64]),
                    None => blocks.push(vec![-1, 0, 0]),
                }
            }
        } else {
            agree = -1
        }
        c.arr2("blk", &blocks);
        c.int("agr", agree);
        let wk: Vec<i64> = self.walk().iter().map(|e| if e.is_null() { -9 } else { unsafe { (**e).val() } }).collect();
        c.arr("wlk", &wk);
    }
}

fn deq_obs<const P: usize>(c: &mut Ctx, v: &mut D<P>, full: bool) {
    if c.obs {
        c.int("n", v.len() as i64);
        c.int("e", v.is_empty() as i64);
        let (f, b) = if c.step % 3 == 0 {
            (v.front_mut().map_or(vec![], |e| vec![e.val()]), v.back_mut().map_or(vec![], |e| vec![e.val()]))
        } else {
            (v.front().map_or(vec![], |e| vec![e.val()]), v.back().map_or(vec![], |e| vec![e.val()]))
        };
        c.arr("fr", &f);
        c.arr("bk", &b);
        if full {
            let f: Vec<i64> = if c.step % 2 == 0 { vals(v.iter()) } else { v.iter_mut().map(|e| e.val()).collect() };
            let b: Vec<i64> = if c.step % 4 < 2 { vals(v.iter().rev()) } else { v.iter_mut().rev().map(|e| e.val()).collect() };
            c.arr("c", &f);
            c.arr("b", &b);
            if c.step % 7 == 3 {
                c.arr("dbg", &digits(&crate::ctx::show(v)));
            }
        }
    }
    if c.lay && full {
        Image::<P>::read(v as *const _ as *const u8).log(c);
    }
}
fn it_obs<const P: usize>(c: &mut Ctx, it: &It<P>) {
    if c.obs && !matches!(it, It::None) {
        c.arr("ih", &it.hint());
    }
}
fn own_obs<const P: usize>(c: &mut Ctx, d: &[Option<&D<P>>], it: &It<P>) {
    if !c.own {
        return;
    }
    let mut live = vec![];
    for d in d.iter().flatten() {
        live.extend(d.iter().map(|e| tk(e as *const _)))
    }
    match it.live() {
        Some(x) => {
            live.extend(x);
            c.own(&live)
        }
        None => c.own_unseen(),
    }
}

pub fn run<const P: usize>(c: &mut Ctx, steps: &[Step]) {
    let mut v: Option<D<P>> = Some(c.pre(D::new));
    let mut it: It<P> = It::None;
    for st in steps {
        let a = &st.a;
        let x = |i: usize| a[i] as usize;
        c.op(&st.op, a, st.fault, || {
            let d = v.as_mut().unwrap();
            match st.op.as_str() {
                "new" => v = Some(D::new()),
                "default" => v = Some(D::default()),
                "newin" => v = Some(unsafe { D::new_in(TA::default()) }),
                "adopt" => v = Some(crate::cxx::deque(x(0), x(1), x(2), mk(&a[3..]))),
                "fromiter" => {
                    let e = mk::<P>(&a[1..]);
                    v = Some(HintIter { v: e.into_iter(), exact: a[0] == 0 }.collect())
                }
                "pushbn" => {
                    for i in 0..a[1] {
                        d.push_back(Elem::new(a[0] + i))
                    }
                }
                "pushfn" => {
                    for i in 0..a[1] {
                        d.push_front(Elem::new(a[0] + i))
                    }
                }
                "popbn" => return (0..a[0]).flat_map(|_| opt(d.pop_back())).collect(),
                "popfn" => return (0..a[0]).flat_map(|_| opt(d.pop_front())).collect(),
                "remn" => return (0..a[1]).flat_map(|_| opt(d.remove(x(0)))).collect(),
                "pushb" => d.push_back(Elem::new(a[0])),
                "pushf" => d.push_front(Elem::new(a[0])),
                "popb" => return opt(d.pop_back()),
                "popf" => return opt(d.pop_front()),
                "remove" => return opt(d.remove(x(0))),
                "setf" => *d.front_mut().unwrap() = Elem::new(a[0]),
                "setb" => *d.back_mut().unwrap() = Elem::new(a[0]),
                "set" => *d.iter_mut().nth(x(0)).unwrap() = Elem::new(a[1]),
                "drop" => {
                    drop(v.replace(D::new()));
                }
                "fin" => {
                    it = It::None;
                    drop(v.take());
                    v = None;
                }
                "itnew" => {
                    it = match a[0] {
                        0 => It::S(d.iter()),
                        1 => It::M(d.iter_mut()),
                        _ => It::I(v.replace(D::new()).unwrap().into_iter()),
                    }
                }
                "inext" => return it.step(false, None),
                "inback" => return it.step(true, None),
                "inextset" => return it.step(false, Some(a[0])),
                "inbackset" => return it.step(true, Some(a[0])),
                "inth" => return it.jump(false, x(0)),
                "inthb" => return it.jump(true, x(0)),
                "icount" => return take(&mut it).count(),
                "ilast" => return take(&mut it).last(),
                "icompat" => it = take(&mut it).compat(a[0]),
                "irest" => return take(&mut it).rest(false),
                "irestb" => return take(&mut it).rest(true),
                "idrop" => it = It::None,
                o => panic!("op {o}"),
            }
            vec![]
        });
        let full = c.full();
        if let Some(v) = v.as_mut() {
            deq_obs(c, v, full)
        }
        it_obs(c, &it);
        own_obs(c, &[v.as_ref()], &it);
        c.end();
    }
}

pub fn run_queue<const P: usize>(c: &mut Ctx, steps: &[Step]) {
    let mut v: Option<Q<P>> = Some(c.pre(Q::default));
    let mut w: Option<D<P>> = None;
    let mut it: It<P> = It::None;
    for st in steps {
        let a = &st.a;
        let x = |i: usize| a[i] as usize;
        c.op(&st.op, a, st.fault, || {
            let d = v.as_mut().unwrap();
            match st.op.as_str() {
                "default" | "new" => v = Some(Q::default()),
                "newin" => v = Some(unsafe { Q::new_in(TA::default()) }),
                "adopt" => v = Some(unsafe { std::mem::transmute::<D<P>, Q<P>>(crate::cxx::deque(x(0), x(1), x(2), mk(&a[3..]))) }),
                "fromiter" => {
                    let e = mk::<P>(&a[1..]);
                    v = Some(HintIter { v: e.into_iter(), exact: a[0] == 0 }.collect())
                }
                "pushn" => {
                    for i in 0..a[1] {
                        d.push(Elem::new(a[0] + i))
                    }
                }
                "popn" => return (0..a[0]).flat_map(|_| opt(d.pop())).collect(),
                "push" => d.push(Elem::new(a[0])),
                "pop" => return opt(d.pop()),
                "set" => *d.iter_mut().nth(x(0)).unwrap() = Elem::new(a[1]),
                "inner" => w = Some(v.replace(Q::default()).unwrap().into_inner()),
                "wpopf" => return opt(w.as_mut().unwrap().pop_front()),
                "wpopb" => return opt(w.as_mut().unwrap().pop_back()),
                "dropw" => w = None,
                "drop" => {
                    drop(v.replace(Q::default()));
                }
                "fin" => {
                    it = It::None;
                    v = None;
                    w = None;
                }
                "itnew" => {
                    it = match a[0] {
                        0 => It::S(d.iter()),
                        1 => It::M(d.iter_mut()),
                        _ => It::I(v.replace(Q::default()).unwrap().into_iter()),
                    }
                }
                "inext" => return it.step(false, None),
                "inback" => return it.step(true, None),
                "inextset" => return it.step(false, Some(a[0])),
                "inbackset" => return it.step(true, Some(a[0])),
                "inth" => return it.jump(false, x(0)),
                "inthb" => return it.jump(true, x(0)),
                "icount" => return take(&mut it).count(),
                "ilast" => return take(&mut it).last(),
                "icompat" => it = take(&mut it).compat(a[0]),
                "irest" => return take(&mut it).rest(false),
                "irestb" => return take(&mut it).rest(true),
                "idrop" => it = It::None,
                o => panic!("op {o}"),
            }
            vec![]
        });
        let full = c.full();
        if let (Some(v), true) = (v.as_mut(), c.obs) {
            c.int("n", v.len() as i64);
            c.int("e", v.is_empty() as i64);
            c.arr("fr", &v.top().map_or(vec![], |e| vec![e.val()]));
            if full {
                let f: Vec<i64> = if c.step % 2 == 0 { vals(v.iter()) } else { v.iter_mut().map(|e| e.val()).collect() };
                c.arr("c", &f);
                c.arr("b", &vals(v.iter().rev()));
                if c.step % 7 == 3 {
                    c.arr("dbg", &digits(&crate::ctx::show(v)));
                }
            }
        }
        if let (Some(w), true, true) = (w.as_ref(), c.obs, full) {
            c.arr("w", &vals(w.iter()))
        }
        it_obs(c, &it);
        if c.own {
            let mut live: Vec<i64> = vec![];
            if let Some(v) = &v {
                live.extend(v.iter().map(|e| tk(e as *const _)))
            }
            if let Some(w) = &w {
                live.extend(w.iter().map(|e| tk(e as *const _)))
            }
            match it.live() {
                Some(x) => {
                    live.extend(x);
                    c.own(&live)
                }
                None => c.own_unseen(),
            }
        }
        c.end();
    }
}
