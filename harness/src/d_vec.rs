use crate::ctx::*;
use crate::led::*;
use crate::talloc::*;
use eastl_rs::Vector;

type V<const P: usize> = Vector<Elem<P>, TA>;
type VI<const P: usize> = <V<P> as IntoIterator>::IntoIter;

/// Iterator with a chosen size hint (exact, or an honest lower bound of zero).
pub struct HintIter<T> {
    pub v: std::vec::IntoIter<T>,
    pub exact: bool,
}
impl<T> Iterator for HintIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        fault_point(Fk::Iter);
        self.v.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.exact {
            self.v.size_hint()
        } else {
            (self.v.len() / 2, None)
        }
    }
}
pub fn mk<const P: usize>(a: &[i64]) -> Vec<Elem<P>> {
    a.iter().map(|x| Elem::new(*x)).collect()
}
pub fn opt<const P: usize>(o: Option<Elem<P>>) -> Vec<i64> {
    o.map_or(vec![], |e| vec![e.taken()])
}
pub fn vals<'a, const P: usize>(i: impl Iterator<Item = &'a Elem<P>>) -> Vec<i64> {
    i.map(|e| e.val()).collect()
}
pub fn toks<'a, const P: usize>(i: impl Iterator<Item = &'a Elem<P>>) -> Vec<i64> {
    i.map(|e| if e.alive() { e.tok() } else { -e.tok().abs() - 1 }).collect()
}
pub fn from_arr<const P: usize>(a: &[i64], byref: bool) -> V<P> {
    let e = mk::<P>(a);
    macro_rules! arr {
        ($n:expr) => {{
            let Ok(x): Result<[Elem<P>; $n], _> = e.try_into() else { panic!() };
            if byref {
                // the source array belongs to the caller
                let v = V::from(&x);
                led().mute_faults = true;
                for y in x {
                    y.taken();
                }
                led().mute_faults = false;
                v
            } else {
                V::from(x)
            }
        }};
    }
    match a.len() {
        0 => arr!(0),
        1 => arr!(1),
        2 => arr!(2),
        3 => arr!(3),
        4 => arr!(4),
        5 => arr!(5),
        7 => arr!(7),
        8 => arr!(8),
        _ => panic!("array size"),
    }
}

pub fn run<const P: usize>(c: &mut Ctx, steps: &[Step]) {
    let mut v: Option<V<P>> = Some(V::new());
    let mut w: Option<V<P>> = None;
    let mut it: Option<VI<P>> = None;
    for st in steps {
        let a = &st.a;
        let x = |i: usize| a[i] as usize;
        // elements that belong to the caller for the duration of the operation
        let src: Vec<Elem<P>> = match st.op.as_str() {
            "append" | "assign" | "fromslice" | "frommut" | "fromin" => mk(a),
            _ => vec![],
        };
        c.op(&st.op, a, st.fault, || {
            match st.op.as_str() {
                "new" => v = Some(V::new()),
                "default" => v = Some(V::default()),
                "newin" => v = Some(V::new_in(TA::default())),
                "withcap" => v = Some(V::with_capacity(x(0))),
                "fromslice" => v = Some(V::from(&src[..])),
                "frommut" => {
                    let mut s = std::mem::ManuallyDrop::new(mk::<P>(a));
                    let r = V::from(&mut s[..]);
                    for y in std::mem::ManuallyDrop::into_inner(s) {
                        y.taken();
                    }
                    v = Some(r)
                }
                "fromin" => v = Some(unsafe { V::from_in(&src, TA::default()) }),
                "adopt" => v = Some(crate::cxx::vector(x(0), mk(&a[1..]))),
                "fromarr" => v = Some(from_arr(a, false)),
                "fromarrref" => v = Some(from_arr(a, true)),
                "fromiter" => {
                    let e = mk::<P>(&a[1..]);
                    v = Some(HintIter { v: e.into_iter(), exact: a[0] == 0 }.collect())
                }
                "push" => v.as_mut().unwrap().push(Elem::new(a[0])),
                "pop" => return opt(v.as_mut().unwrap().pop()),
                "insert" => v.as_mut().unwrap().insert(x(0), Elem::new(a[1])),
                "remove" => return opt(v.as_mut().unwrap().remove(x(0))),
                "pushn" => {
                    for i in 0..a[1] {
                        v.as_mut().unwrap().push(Elem::new(a[0] + i))
                    }
                }
                "popn" => return (0..a[0]).flat_map(|_| opt(v.as_mut().unwrap().pop())).collect(),
                "insn" => {
                    for i in 0..a[2] {
                        v.as_mut().unwrap().insert(x(0), Elem::new(a[1] + i))
                    }
                }
                "remn" => return (0..a[1]).flat_map(|_| opt(v.as_mut().unwrap().remove(x(0)))).collect(),
                "append" => v.as_mut().unwrap().append(&src),
                "assign" => v.as_mut().unwrap().assign(&src),
                "clear" => v.as_mut().unwrap().clear(),
                "reserve" => v.as_mut().unwrap().reserve(x(0)),
                "set" => {
                    let e = Elem::new(a[1]);
                    if a[0] % 2 == 0 {
                        v.as_mut().unwrap().as_slice_mut()[x(0)] = e
                    } else {
                        v.as_mut().unwrap()[x(0)] = e
                    }
                }
                "swap" => v.as_mut().unwrap().swap(x(0), x(1)),
                "clone" => {
                    let n = v.as_ref().unwrap().clone();
                    w = Some(n)
                }
                "swapw" => {
                    if let Some(w) = w.as_mut() {
                        std::mem::swap(v.as_mut().unwrap(), w)
                    }
                }
                "dropw" => w = None,
                "drop" => {
                    drop(v.replace(V::new()));
                }
                "fin" => {
                    v = None;
                    w = None;
                    it = None;
                }
                "get" => return v.as_ref().unwrap().get(x(0)).map_or(vec![], |e| vec![e.val()]),
                "intoiter" => it = Some(v.replace(V::new()).unwrap().into_iter()),
                "inext" => return opt(it.as_mut().unwrap().next()),
                "inback" => return opt(it.as_mut().unwrap().next_back()),
                "inth" => return opt(it.as_mut().unwrap().nth(x(0))),
                "inthb" => return opt(it.as_mut().unwrap().nth_back(x(0))),
                "icount" => return vec![it.take().unwrap().count() as i64],
                "ilast" => return opt(it.take().unwrap().last()),
                "iset" => {
                    // write through the remaining slice
                    it.as_mut().unwrap().as_slice_mut()[x(0)] = Elem::new(a[1])
                }
                "icollect" => {
                    // the rest through an ordinary for loop
                    let mut r = vec![];
                    for e in it.take().unwrap() {
                        r.push(e.taken())
                    }
                    return r;
                }
                "idrop" => it = None,
                o => panic!("op {o}"),
            }
            vec![]
        });
        drop(src);
        if c.obs || c.own {
            let full = c.full();
            let dbg = c.step % 7 == 3;
            if let Some(v) = v.as_mut() {
                if c.obs {
                    c.int("n", v.len() as i64);
                    c.int("e", v.is_empty() as i64);
                    c.int("f", v.is_full() as i64);
                    c.int("k", v.capacity() as i64);
                    if full {
                        let cv = match c.step % 5 {
                            0 => vals(v.as_slice().iter()),
                            1 => vals(v.iter()),
                            2 => vals(v.as_slice_mut().iter()),
                            3 => vals(AsRef::<[Elem<P>]>::as_ref(v).iter()),
                            _ => vals((0..v.len()).map(|i| &v[i])),
                        };
                        c.arr("c", &cv);
                        if dbg {
                            c.arr("dbg", &digits(&crate::ctx::show(v)));
                        }
                    }
                }
                if c.lay {
                    let raw = unsafe { &*(v as *const V<P> as *const [usize; 3]) };
                    let sz = std::mem::size_of::<Elem<P>>();
                    c.int("g", addr_id(raw[0]));
                    let bs = if raw[0] == 0 { 0 } else { find(raw[0], 1).map_or(-1, |(b, o)| if o == 0 { b.size as i64 / sz as i64 } else { -2 }) };
                    c.int("bs", bs);
                    c.arr("raw", &[((raw[1] - raw[0]) / sz) as i64, ((raw[2] - raw[0]) / sz) as i64]);
                }
            }
            if c.obs {
                if let Some(w) = w.as_ref() {
                    if full {
                        c.arr("w", &vals(w.iter()));
                        c.int("wk", w.capacity() as i64);
                    }
                }
                if let Some(it) = it.as_ref() {
                    c.int("in", it.len() as i64);
                    c.int("ie", it.is_empty() as i64);
                    c.int("ik", it.capacity() as i64);
                    let sh = it.size_hint();
                    c.arr("ih", &[sh.0 as i64, sh.1.map_or(-1, |x| x as i64)]);
                    c.arr("ic", &vals(it.as_slice().iter()));
                }
            }
        }
        let mut live = vec![];
        if c.own {
            if let Some(v) = &v {
                live.extend(toks(v.iter()))
            }
            if let Some(w) = &w {
                live.extend(toks(w.iter()))
            }
            if let Some(it) = &it {
                live.extend(toks(it.as_slice().iter()))
            }
        }
        c.own(&live);
        c.end();
    }
}
