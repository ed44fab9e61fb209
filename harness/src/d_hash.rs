use crate::ctx::*;
use crate::d_vec::{mk, opt, HintIter};
use crate::led::*;
use crate::talloc::*;
use eastl_rs::equals::{EqualTo, Equals};
use eastl_rs::hash_map::{iter as mi, HashMap};
use eastl_rs::hash_set::{iter as si, HashSet};
use eastl_rs::{hash::DefaultHash, Allocator, DefaultAllocator, Hash};
use std::cell::Cell;
use std::mem::{size_of, take};

type K<const P: usize> = Elem<P>;

enum It<const P: usize> {
    None,
    S(mi::Iter<'static, K<P>, K<P>>),
    M(mi::IterMut<'static, K<P>, K<P>>),
    T(si::Iter<'static, K<P>>),
}
impl<const P: usize> Default for It<P> {
    fn default() -> Self {
        It::None
    }
}
impl<const P: usize> It<P> {
    fn hint(&self) -> Option<Vec<i64>> {
        let h = match self {
            It::None => return None,
            It::S(i) => i.size_hint(),
            It::M(i) => i.size_hint(),
            It::T(i) => i.size_hint(),
        };
        Some(vec![h.0.min(1 << 30) as i64, h.1.map_or(-1, |x| x.min(1 << 30) as i64)])
    }
    fn step(&mut self, w: Option<i64>) -> Vec<i64> {
        match self {
            It::None => panic!("no iterator"),
            It::S(i) => i.next().map_or(vec![], |(k, v)| vec![k.val(), v.val()]),
            It::M(i) => i.next().map_or(vec![], |(k, v)| {
                let r = vec![k.val(), v.val()];
                if let Some(w) = w {
                    *v = Elem::new(w)
                }
                r
            }),
            It::T(i) => i.next().map_or(vec![], |k| vec![k.val(), 0]),
        }
    }
    fn dup(&self) -> Self {
        match self {
            It::None => It::None,
            It::S(i) => It::S(i.clone()),
            It::M(i) => It::M(i.clone()),
            It::T(_) => panic!("set iterators are not cloneable"),
        }
    }
    fn compat(self, k: i64) -> Self {
        match self {
            It::None => It::None,
            It::S(i) => {
                let (b, e) = i.into_compat();
                It::S(unsafe { mi::Iter::from_compat(b, e) })
            }
            It::M(i) => match k {
                0 => {
                    let (b, e) = i.into_compat();
                    It::M(unsafe { mi::IterMut::from_compat(b, e) })
                }
                1 => {
                    let (b, e) = i.into_compat();
                    It::S(unsafe { mi::Iter::from_compat(b, e) })
                }
                _ => {
                    let (b, e) = i.into_compat_mut();
                    It::S(unsafe { mi::Iter::from_compat_mut(b, e) })
                }
            },
            It::T(i) => {
                let (b, e) = i.into_compat();
                It::T(unsafe { si::Iter::from_compat(b, e) })
            }
        }
    }
    /// A jump over `n` entries, after walking there with a clone: all entries passed, then the one the jump gave.
    fn jump(&mut self, n: usize) -> Vec<i64> {
        let mut w = self.dup();
        let mut r: Vec<i64> = (0..=n).flat_map(|_| w.step(None)).collect();
        r.extend(match self {
            It::S(i) => i.nth(n).map_or(vec![], |(k, v)| vec![k.val(), v.val()]),
            It::M(i) => i.nth(n).map_or(vec![], |(k, v)| vec![k.val(), v.val()]),
            _ => panic!("no iterator"),
        });
        r
    }
    fn count(self) -> Vec<i64> {
        vec![match self {
            It::None => 0,
            It::S(i) => i.count(),
            It::M(i) => i.count(),
            It::T(i) => i.count(),
        } as i64]
    }
    fn last(self) -> Vec<i64> {
        match self {
            It::None => vec![],
            It::S(i) => i.last().map_or(vec![], |(k, v)| vec![k.val(), v.val()]),
            It::M(i) => i.last().map_or(vec![], |(k, v)| vec![k.val(), v.val()]),
            It::T(i) => i.last().map_or(vec![], |k| vec![k.val(), 0]),
        }
    }
    fn rest(self) -> Vec<i64> {
        let mut r = vec![];
        match self {
            It::None => {}
            It::S(i) => i.for_each(|(k, v)| r.extend([k.val(), v.val()])),
            It::M(i) => i.for_each(|(k, v)| r.extend([k.val(), v.val()])),
            It::T(i) => i.for_each(|k| r.extend([k.val(), 0])),
        }
        r
    }
}
fn tk<const P: usize>(e: &Elem<P>) -> i64 {
    if e.alive() {
        e.tok()
    } else {
        -e.tok().abs() - 1
    }
}

/// The C++-visible image of a hash table.  `pl`: size of what a node holds before its next link.
fn image<const P: usize>(c: &mut Ctx, obj: *const u8, pl: usize) {
    let no = pl.next_multiple_of(8);
    let ns = (no + 8).next_multiple_of(8.max(align_of::<Elem<P>>()));
    unsafe {
        let arr = *(obj.add(8) as *const usize);
        let bc = *(obj.add(16) as *const u32) as usize;
        let ec = *(obj.add(20) as *const u32);
        c.int("bc", bc as i64);
        c.int("ec", ec as i64);
        // slots in the bucket array's block (0: the shared empty array)
        let slots = match find(arr, 8) {
            Some((b, 0)) => b.size as i64 / 8,
            Some(_) => -1,
            None => 0,
        };
        c.int("bb", slots);
        let mut log = vec![];
        let mut sn = -1;
        if slots == 0 && bc == 1 || slots > bc as i64 {
            sn = (*((arr + 8 * bc) as *const usize) == !0) as i64;
            'all: for b in 0..bc {
                let mut n = *((arr + 8 * b) as *const usize);
                let mut guard = 0;
                while n != 0 {
                    match find(n, ns) {
                        Some((b, 0)) if b.size == ns => {}
                        _ => {
                            log.push(vec![b as i64, -9, -9]);
                            continue 'all;
                        }
                    }
                    let k = &*(n as *const Elem<P>);
                    log.push(vec![b as i64, k.val(), (hash_val(k.key()) % bc) as i64]);
                    n = *((n + no) as *const usize);
                    guard += 1;
                    if guard > 1 << 12 {
                        log.push(vec![b as i64, -8, -8]);
                        continue 'all;
                    }
                }
            }
        }
        c.int("sn", sn);
        c.arr2("log", &log);
    }
}

fn drive_map<const P: usize, H: Hash<K<P>> + 'static, E: Equals<K<P>> + 'static>(
    c: &mut Ctx,
    steps: &[Step],
    make: fn(&str, &[i64]) -> HashMap<K<P>, K<P>, TA, H, E>,
) {
    type It_<const P: usize> = It<P>;
    let mut v: Option<Box<HashMap<K<P>, K<P>, TA, H, E>>> = Some(Box::new(make("new", &[])));
    let mut it: It_<P> = It::None;
    let mut it2: It_<P> = It::None;
    let u = c.geti("u", 8);
    let pl = 2 * size_of::<Elem<P>>();
    for st in steps {
        let a = &st.a;
        // the probe key belongs to the caller
        let probe: Elem<P> = Elem::new(a.first().copied().unwrap_or(0));
        c.op(&st.op, a, st.fault, || {
            match st.op.as_str() {
                "new" | "default" | "newin" | "drop" | "fromiter" | "adopt" => {
                    let n = if st.op == "adopt" {
                        crate::cxx::map::<P, H, E>(a)
                    } else if st.op == "drop" {
                        drop(v.replace(Box::new(make("new", &[]))));
                        return vec![];
                    } else {
                        make(&st.op, a)
                    };
                    v = Some(Box::new(n));
                    return vec![];
                }
                "fin" => {
                    (it, it2) = (It::None, It::None);
                    v = None;
                    return vec![];
                }
                "inext" => return it.step(None),
                "inextset" => return it.step(Some(a[0])),
                "iclone" => {
                    it2 = it.dup();
                    return vec![];
                }
                "iswap" => {
                    std::mem::swap(&mut it, &mut it2);
                    return vec![];
                }
                "icompat" => {
                    it = take(&mut it).compat(a[0]);
                    return vec![];
                }
                "irest" => return take(&mut it).rest(),
                "inth" => return it.jump(a[0] as usize),
                "icount" => return take(&mut it).count(),
                "ilast" => return take(&mut it).last(),
                "idrop" => {
                    it = It::None;
                    return vec![];
                }
                "idrop2" => {
                    it2 = It::None;
                    return vec![];
                }
                _ => {}
            }
            let d = v.as_mut().unwrap();
            match st.op.as_str() {
                "insert" => {
                    let k = Elem::new(a[0]);
                    return opt(d.insert(k, Elem::new(a[1])));
                }
                "get" => return d.get(&probe).map_or(vec![], |v| vec![v.val()]),
                "getmut" => return d.get_mut(&probe).map_or(vec![], |v| vec![v.val()]),
                "getset" => {
                    return match d.get_mut(&probe) {
                        Some(v) => {
                            let o = v.val();
                            *v = Elem::new(a[1]);
                            vec![o]
                        }
                        None => vec![],
                    }
                }
                "has" => return vec![d.contains_key(&probe) as i64],
                "remove" => return opt(d.remove(&probe)),
                "removeent" => {
                    return d.remove_entry(&probe).map_or(vec![], |(k, v)| {
                        let k = k.taken();
                        vec![k, v.taken()]
                    })
                }
                "clear" => d.clear(),
                "itnew" => {
                    let d: &'static mut HashMap<K<P>, K<P>, TA, H, E> = unsafe { &mut *(&mut **d as *mut _) };
                    it = if a[0] == 0 { It::S(d.iter()) } else { It::M(d.iter_mut()) };
                }
                // --- entries ---
                "entdrop" => {
                    d.entry(Elem::new(a[0]));
                }
                "entins" => {
                    let k = Elem::new(a[0]);
                    return vec![d.entry(k).or_insert(Elem::new(a[1])).val()];
                }
                "entinsset" => {
                    let k = Elem::new(a[0]);
                    let r = d.entry(k).or_insert(Elem::new(a[1]));
                    let o = r.val();
                    *r = Elem::new(a[2]);
                    return vec![o];
                }
                "entwith" => {
                    let calls = Cell::new(0);
                    let r = d
                        .entry(Elem::new(a[0]))
                        .or_insert_with(|| {
                            calls.set(calls.get() + 1);
                            fault_point(Fk::Closure);
                            Elem::new(a[1])
                        })
                        .val();
                    return vec![r, calls.get()];
                }
                "entmod" => {
                    let calls = Cell::new(0);
                    let seen = Cell::new(0);
                    d.entry(Elem::new(a[0])).and_modify(|v| {
                        calls.set(calls.get() + 1);
                        seen.set(v.val());
                        fault_point(Fk::Closure);
                        *v = Elem::new(a[1])
                    });
                    return vec![calls.get(), seen.get()];
                }
                "entmodins" => {
                    let calls = Cell::new(0);
                    let k = Elem::new(a[0]);
                    let r = d
                        .entry(k)
                        .and_modify(|v| {
                            calls.set(calls.get() + 1);
                            fault_point(Fk::Closure);
                            *v = Elem::new(a[1])
                        })
                        .or_insert(Elem::new(a[2]))
                        .val();
                    return vec![r, calls.get()];
                }
                o => panic!("op {o}"),
            }
            vec![]
        });
        led().mute_faults = true;
        drop(probe);
        led().mute_faults = false;
        let full = c.full();
        if let Some(v) = v.as_mut() {
            if c.obs {
                c.int("n", v.len() as i64);
                c.int("e", v.is_empty() as i64);
                if full {
                    let mut g = vec![];
                    let mut h = vec![];
                    for k in 0..u {
                        let p: Elem<P> = Elem::new(if c.step % 2 == 0 { k } else { k + 9000 });
                        g.push(if c.step % 3 == 0 { v.get_mut(&p).map_or(0, |v| v.val()) } else { v.get(&p).map_or(0, |v| v.val()) });
                        h.push(v.contains_key(&p) as i64);
                    }
                    c.arr("g", &g);
                    c.arr("h", &h);
                    let cv: Vec<Vec<i64>> = if c.step % 2 == 0 {
                        v.iter().map(|(k, v)| vec![k.val(), v.val()]).collect()
                    } else {
                        v.iter_mut().map(|(k, v)| vec![k.val(), v.val()]).collect()
                    };
                    c.arr2("c", &cv);
                    if c.step % 5 == 3 {
                        c.arr("dbg", &digits(&crate::ctx::show(v)));
                    }
                }
                if let Some(h) = it.hint() {
                    c.arr("ih", &h)
                }
            }
            if c.lay && full {
                image::<P>(c, &**v as *const _ as *const u8, pl);
            }
        }
        let mut live = vec![];
        if c.own {
            if let Some(v) = v.as_ref() {
                for (k, v) in v.iter() {
                    live.extend([tk(k), tk(v)])
                }
            }
        }
        c.own(&live);
        c.end();
    }
}

fn drive_set<const P: usize, H: Hash<K<P>> + 'static, E: Equals<K<P>> + 'static>(
    c: &mut Ctx,
    steps: &[Step],
    make: fn(&str, &[i64]) -> HashSet<K<P>, TA, H, E>,
) {
    let mut v: Option<Box<HashSet<K<P>, TA, H, E>>> = Some(Box::new(make("new", &[])));
    let mut it: It<P> = It::None;
    let u = c.geti("u", 8);
    let pl = size_of::<Elem<P>>();
    for st in steps {
        let a = &st.a;
        let probe: Elem<P> = Elem::new(a.first().copied().unwrap_or(0));
        c.op(&st.op, a, st.fault, || {
            match st.op.as_str() {
                "new" | "default" | "newin" | "drop" | "fromiter" | "adopt" => {
                    let n = if st.op == "adopt" {
                        crate::cxx::set::<P, H, E>(a)
                    } else if st.op == "drop" {
                        drop(v.replace(Box::new(make("new", &[]))));
                        return vec![];
                    } else {
                        make(&st.op, a)
                    };
                    v = Some(Box::new(n));
                    return vec![];
                }
                "fin" => {
                    it = It::None;
                    v = None;
                    return vec![];
                }
                "inext" => return it.step(None),
                "icompat" => {
                    it = take(&mut it).compat(a[0]);
                    return vec![];
                }
                "irest" => return take(&mut it).rest(),
                "inth" => return it.jump(a[0] as usize),
                "icount" => return take(&mut it).count(),
                "ilast" => return take(&mut it).last(),
                "idrop" => {
                    it = It::None;
                    return vec![];
                }
                _ => {}
            }
            let d = v.as_mut().unwrap();
            match st.op.as_str() {
                "insert" => return vec![d.insert(Elem::new(a[0])) as i64],
                "get" => return d.get(&probe).map_or(vec![], |v| vec![v.val()]),
                "has" => return vec![d.contains_key(&probe) as i64],
                "remove" => return opt(d.remove(&probe)),
                "clear" => d.clear(),
                "itnew" => {
                    let d: &'static HashSet<K<P>, TA, H, E> = unsafe { &*(&**d as *const _) };
                    it = It::T(d.iter());
                }
                o => panic!("op {o}"),
            }
            vec![]
        });
        led().mute_faults = true;
        drop(probe);
        led().mute_faults = false;
        let full = c.full();
        if let Some(v) = v.as_mut() {
            if c.obs {
                c.int("n", v.len() as i64);
                c.int("e", v.is_empty() as i64);
                if full {
                    let mut g = vec![];
                    let mut h = vec![];
                    for k in 0..u {
                        let p: Elem<P> = Elem::new(if c.step % 2 == 0 { k } else { k + 9000 });
                        g.push(v.get(&p).map_or(-1, |v| v.val()));
                        h.push(v.contains_key(&p) as i64);
                    }
                    c.arr("g", &g);
                    c.arr("h", &h);
                    let cv: Vec<Vec<i64>> = v.iter().map(|k| vec![k.val(), 0]).collect();
                    c.arr2("c", &cv);
                    if c.step % 5 == 3 {
                        c.arr("dbg", &digits(&crate::ctx::show(v)));
                    }
                }
                if let Some(h) = it.hint() {
                    c.arr("ih", &h)
                }
            }
            if c.lay && full {
                image::<P>(c, &**v as *const _ as *const u8, pl);
            }
        }
        let mut live = vec![];
        if c.own {
            if let Some(v) = v.as_ref() {
                live.extend(v.iter().map(tk))
            }
        }
        c.own(&live);
        c.end();
    }
}

fn pairs<const P: usize>(a: &[i64]) -> HintIter<(K<P>, K<P>)> {
    let v: Vec<_> = a[1..].chunks(2).map(|x| (Elem::new(x[0]), Elem::new(x[1]))).collect();
    HintIter { v: v.into_iter(), exact: a[0] == 0 }
}
pub fn run_map<const P: usize>(c: &mut Ctx, steps: &[Step]) {
    if c.geti("custom", 0) == 1 {
        led().strict_eq = true;
        drive_map::<P, EH, EqE>(c, steps, |op, a| {
            let mut m = unsafe { HashMap::new_in(TA::default()) };
            if op == "fromiter" {
                for (k, v) in pairs::<P>(a) {
                    drop(m.insert(k, v))
                }
            }
            m
        })
    } else {
        drive_map::<P, DefaultHash<K<P>>, EqualTo<K<P>>>(c, steps, |op, a| match op {
            "default" => HashMap::default(),
            "newin" => unsafe { HashMap::new_in(TA::default()) },
            "fromiter" => pairs::<P>(a).collect(),
            _ => HashMap::new(),
        })
    }
}
pub fn run_set<const P: usize>(c: &mut Ctx, steps: &[Step]) {
    if c.geti("custom", 0) == 1 {
        led().strict_eq = true;
        drive_set::<P, EH, EqE>(c, steps, |op, a| {
            let mut m = unsafe { HashSet::new_in(TA::default()) };
            if op == "fromiter" {
                for k in mk::<P>(&a[1..]) {
                    m.insert(k);
                }
            }
            m
        })
    } else {
        drive_set::<P, DefaultHash<K<P>>, EqualTo<K<P>>>(c, steps, |op, a| match op {
            "default" => HashSet::default(),
            "newin" => unsafe { HashSet::new_in(TA::default()) },
            "fromiter" => HintIter { v: mk::<P>(&a[1..]).into_iter(), exact: a[0] == 0 }.collect(),
            _ => HashSet::new(),
        })
    }
}

use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
static ASKED: AtomicUsize = AtomicUsize::new(0);
/// Refuses large requests, but remembers how much was asked for.
#[derive(Default)]
struct Probe;
unsafe impl Allocator for Probe {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        if n > 1 << 20 {
            ASKED.store(n, Relaxed);
            std::panic::panic_any("injected");
        }
        DefaultAllocator::default().allocate_raw_aligned(n, align)
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        DefaultAllocator::default().deallocate_raw_aligned(p, n, align)
    }
}

/// Growth of a table of plain numbers, far beyond what is logged entry by entry.
pub fn run_grow(c: &mut Ctx, steps: &[Step]) {
    use eastl_rs::hash_map::DefaultHashMap;
    type M = DefaultHashMap<u64, u64>;
    let mut v: Box<M> = Box::new(M::new());
    let (mut lo, mut hi) = (0u64, 0u64); // present keys: step * (lo..hi)
    let step = c.geti("step", 1) as u64;
    for st in steps {
        let a = &st.a;
        let mut gr = vec![];
        let mut bad = 0;
        c.op(&st.op, a, st.fault, || {
            let f = |v: &M| unsafe { *((v as *const M as *const u8).add(16) as *const u32) };
            match st.op.as_str() {
                "fill" => {
                    for _ in 0..a[0] {
                        let b = f(&v);
                        bad += v.insert(hi * step, hi + 7).is_some() as i64;
                        hi += 1;
                        if f(&v) != b {
                            gr.push(vec![v.len() as i64, f(&v) as i64])
                        }
                    }
                }
                "entfill" => {
                    for _ in 0..a[0] {
                        let b = f(&v);
                        bad += (*v.entry(hi * step).or_insert(hi + 7) != hi + 7) as i64;
                        hi += 1;
                        if f(&v) != b {
                            gr.push(vec![v.len() as i64, f(&v) as i64])
                        }
                    }
                }
                "drain" => {
                    for _ in 0..a[0] {
                        let b = f(&v);
                        bad += (v.remove(&(lo * step)) != Some(lo + 7)) as i64;
                        lo += 1;
                        if f(&v) != b {
                            gr.push(vec![v.len() as i64, f(&v) as i64])
                        }
                    }
                }
                "clear" => {
                    v.clear();
                    lo = hi;
                }
                "adopt" => {
                    *v = crate::cxx::numbers(a);
                    lo = hi;
                }
                "probe" => {
                    let t = a[0] << 16 | a[1];
                    let mut v: HashMap<u64, u64, Probe> = crate::cxx::numbers(&[2, 1, 1, t, 2, 0]);
                    ASKED.store(0, Relaxed);
                    let grown = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        for k in 0..3 {
                            v.insert(k, k);
                        }
                    }));
                    std::mem::forget(v);
                    let n = ASKED.load(Relaxed);
                    if grown.is_err() && n % 8 == 0 && n > 0 {
                        return vec![(n / 8 - 1) as i64 >> 16, (n / 8 - 1) as i64 & 0xffff];
                    }
                }
                o => panic!("op {o}"),
            }
            vec![]
        });
        for k in lo.saturating_sub(3)..hi + 3 {
            let want = if k >= lo && k < hi { Some(k + 7) } else { None };
            bad += (v.get(&(k * step)).copied() != want) as i64;
        }
        let mut seen = vec![false; (hi - lo) as usize];
        for (k, x) in v.iter() {
            let i = *k / step;
            if i < lo || i >= hi || *x != i + 7 || std::mem::replace(&mut seen[(i - lo) as usize], true) {
                bad += 1
            }
        }
        bad += seen.iter().filter(|x| !**x).count() as i64;
        c.arr2("gr", &gr);
        c.int("n", v.len() as i64);
        unsafe {
            let o = &*v as *const M as *const u8;
            let arr = *(o.add(8) as *const usize);
            let bc = *(o.add(16) as *const u32) as usize;
            c.int("bc", bc as i64);
            c.int("ec", *(o.add(20) as *const u32) as i64);
            c.int("sn", (*((arr + 8 * bc) as *const usize) == !0) as i64);
            // nodes: key, value, next
            let mut cnt = 0;
            'all: for b in 0..bc {
                let mut n = *((arr + 8 * b) as *const usize);
                while n != 0 {
                    bad += (*(n as *const u64) as usize % bc != b) as i64;
                    n = *((n + 16) as *const usize);
                    cnt += 1;
                    if cnt > (hi - lo) as i64 {
                        break 'all;
                    }
                }
            }
            c.int("cnt", cnt);
        }
        c.int("bad", bad);
        c.end();
    }
}
