use crate::ctx::*;
use crate::d_vec::{opt, HintIter};
use crate::led::*;
use crate::talloc::*;
use eastl_rs::compare::{Compare, Greater, Less};
use eastl_rs::vector_map::{Entry, VectorMap};

type K<const P: usize> = Elem<P>;
type M<const P: usize, C> = VectorMap<K<P>, K<P>, TA, C>;

/// A custom strict total order on key classes.
#[derive(Default)]
pub struct ByMod3(#[allow(dead_code)] u8);
impl<const P: usize> Compare<K<P>> for ByMod3 {
    fn compare(l: &K<P>, r: &K<P>) -> bool {
        fault_point(Fk::Cmp);
        (l.key() % 3, l.key()) < (r.key() % 3, r.key())
    }
}

fn tk<const P: usize>(e: &Elem<P>) -> i64 {
    if e.alive() {
        e.tok()
    } else {
        -e.tok().abs() - 1
    }
}
fn pairs<const P: usize>(a: &[i64]) -> Vec<(K<P>, K<P>)> {
    a.chunks_exact(2).map(|x| (Elem::new(x[0]), Elem::new(x[1]))).collect()
}
fn from_arr<const P: usize>(a: &[i64], byref: bool) -> M<P, Less<K<P>>> {
    let e = pairs::<P>(a);
    macro_rules! arr {
        ($n:expr) => {{
            let Ok(x): Result<[(K<P>, K<P>); $n], _> = e.try_into() else { panic!() };
            if byref {
                let v = M::from(&x);
                for (k, y) in x {
                    k.taken();
                    y.taken();
                }
                v
            } else {
                M::from(x)
            }
        }};
    }
    match a.len() / 2 {
        0 => arr!(0),
        1 => arr!(1),
        2 => arr!(2),
        3 => arr!(3),
        4 => arr!(4),
        5 => arr!(5),
        8 => arr!(8),
        _ => panic!("array size"),
    }
}

fn drive<const P: usize, C: Compare<K<P>> + Default>(
    c: &mut Ctx,
    steps: &[Step],
    make: fn(&str, &[i64], &mut Vec<(K<P>, K<P>)>) -> M<P, C>,
) {
    let mut v: Option<M<P, C>> = Some(M::new());
    let u = c.geti("u", 8);
    for st in steps {
        let a = &st.a;
        // what the caller lends for the duration of the operation
        let keyed = matches!(st.op.as_str(), "get" | "getmut" | "getset" | "has" | "remove" | "removeent");
        let probe: Option<K<P>> = keyed.then(|| Elem::new(a[0]));
        let mut src: Vec<(K<P>, K<P>)> = match st.op.as_str() {
            "fromslice" | "frommut" => pairs(a),
            _ => vec![],
        };
        c.op(&st.op, a, st.fault, || {
            match st.op.as_str() {
                "drop" => {
                    drop(v.replace(M::new()));
                    return vec![];
                }
                "fin" => {
                    v = None;
                    return vec![];
                }
                "adopt" => {
                    let mut o = crate::cxx::blank::<M<P, C>>();
                    v = Some(unsafe {
                        crate::cxx::vector_into(&mut o as *mut _ as *mut u8, a[0] as usize, pairs::<P>(&a[1..]));
                        o.assume_init()
                    });
                    return vec![];
                }
                "new" | "default" | "newin" | "withcap" | "fromslice" | "frommut" | "fromarr" | "fromarrref" | "fromiter" => {
                    v = Some(make(&st.op, a, &mut src));
                    return vec![];
                }
                _ => {}
            }
            let d = v.as_mut().unwrap();
            let probe = probe.as_ref();
            match st.op.as_str() {
                "insert" => {
                    let k = Elem::new(a[0]);
                    return opt(d.insert(k, Elem::new(a[1])));
                }
                "get" => return d.get(probe.unwrap()).map_or(vec![], |v| vec![v.val()]),
                "getmut" => return d.get_mut(probe.unwrap()).map_or(vec![], |v| vec![v.val()]),
                "getset" => {
                    return match d.get_mut(probe.unwrap()) {
                        Some(v) => {
                            let o = v.val();
                            *v = Elem::new(a[1]);
                            vec![o]
                        }
                        None => vec![],
                    }
                }
                "has" => return vec![d.contains_key(probe.unwrap()) as i64],
                "remove" => return opt(d.remove(probe.unwrap())),
                "removeent" => {
                    return d.remove_entry(probe.unwrap()).map_or(vec![], |(k, v)| {
                        let k = k.taken();
                        vec![k, v.taken()]
                    })
                }
                "clear" => d.clear(),
                // what the entry says
                "entq" => {
                    return match d.entry(Elem::new(a[0])) {
                        Entry::Occupied(e) => vec![1, e.key().val(), e.get().val()],
                        Entry::Vacant(e) => vec![0, e.key().val()],
                    }
                }
                // write to an occupied one; take the key out of a vacant one
                "entocc" => {
                    return match d.entry(Elem::new(a[0])) {
                        Entry::Occupied(mut e) => {
                            let o = e.get_mut().val();
                            *e.get_mut() = Elem::new(a[1]);
                            vec![1, o, e.get().val()]
                        }
                        Entry::Vacant(e) => vec![0, e.into_key().taken()],
                    }
                }
                // supply a value to a vacant one, and change it through the reference when a third is given
                "entvin" | "entvinset" => {
                    return match d.entry(Elem::new(a[0])) {
                        Entry::Occupied(e) => vec![1, e.get().val()],
                        Entry::Vacant(e) => {
                            let r = e.insert(Elem::new(a[1]));
                            let o = r.val();
                            if st.op == "entvinset" {
                                *r = Elem::new(a[2]);
                            }
                            vec![0, o]
                        }
                    }
                }
                o => panic!("op {o}"),
            }
            vec![]
        });
        led().mute_faults = true;
        drop(probe);
        drop(src);
        led().mute_faults = false;
        let full = c.full();
        if let Some(v) = v.as_mut() {
            if c.obs {
                c.int("n", v.len() as i64);
                c.int("e", v.is_empty() as i64);
                c.int("k", v.capacity() as i64);
                if full {
                    let mut g = vec![];
                    let mut h = vec![];
                    for k in 0..u {
                        let p: Elem<P> = Elem::new(if c.step % 2 == 0 { k } else { k + 9000 });
                        g.push(if c.step % 3 == 0 { v.get_mut(&p).map_or(0, |v| v.val()) } else { v.get(&p).map_or(0, |v| v.val()) });
                        h.push(v.contains_key(&p) as i64);
                    }
                    c.arr("g", &g);
                    c.arr("h", &h);
                    let cv: Vec<Vec<i64>> = if c.step % 2 == 0 {
                        v.as_ref().iter().map(|(k, v)| vec![k.val(), v.val()]).collect()
                    } else {
                        (**v).iter().map(|(k, v)| vec![k.val(), v.val()]).collect()
                    };
                    c.arr2("c", &cv);
                    if c.step % 5 == 3 {
                        c.arr("dbg", &digits(&crate::ctx::show(v)));
                    }
                }
            }
        }
        let mut live = vec![];
        if c.own {
            if let Some(v) = v.as_ref() {
                for (k, v) in v.iter() {
                    live.extend([tk(k), tk(v)])
                }
            }
        }
        c.own(&live);
        c.end();
    }
}

fn other<const P: usize, C: Compare<K<P>> + Default>(op: &str, a: &[i64]) -> M<P, C> {
    match op {
        "new" | "default" => M::new(),
        "newin" => M::new_in(TA::default(), C::default()),
        "withcap" => M::with_capacity(a[0] as usize),
        // built by insertion where the crate has no constructor for this order
        _ => {
            let mut m = M::new();
            for (k, v) in pairs::<P>(if op == "fromiter" { &a[1..] } else { a }) {
                drop(m.insert(k, v))
            }
            m
        }
    }
}

pub fn run<const P: usize>(c: &mut Ctx, steps: &[Step]) {
    match c.geti("cmp", 0) {
        0 => drive::<P, Less<K<P>>>(c, steps, |op, a, src| match op {
            "default" => M::default(),
            "fromslice" => M::from(&src[..]),
            "frommut" => M::from(&mut src[..]),
            "fromarr" => from_arr(a, false),
            "fromarrref" => from_arr(a, true),
            "fromiter" => HintIter { v: pairs::<P>(&a[1..]).into_iter(), exact: a[0] == 0 }.collect(),
            _ => other(op, a),
        }),
        1 => drive::<P, Greater<K<P>>>(c, steps, |op, a, _| other(op, a)),
        _ => drive::<P, ByMod3>(c, steps, |op, a, _| other(op, a)),
    }
}
