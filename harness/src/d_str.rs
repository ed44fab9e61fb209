use crate::ctx::*;
use crate::talloc::*;
use eastl_rs::String as EString;
use std::str::FromStr;

type S = EString<TA>;

fn text(a: &[i64]) -> String {
    a.iter().map(|c| char::from_u32(*c as u32).unwrap()).collect()
}
fn ch(c: i64) -> char {
    char::from_u32(c as u32).unwrap()
}
fn optc(o: Option<char>) -> Vec<i64> {
    o.map_or(vec![], |c| vec![c as i64])
}
fn by(b: &[u8]) -> Vec<i64> {
    b.iter().map(|x| *x as i64).collect()
}
/// Where the byte past the text is: [owns storage, inside the block, its value].
fn nul(s: &S) -> Vec<i64> {
    let (p, n) = (s.as_bytes().as_ptr() as usize, s.len());
    match find(p, 1) {
        None => vec![0, 0, 0],
        Some((b, o)) => {
            let inside = o + n < b.size;
            vec![1, inside as i64, if inside { unsafe { *((p + n) as *const u8) as i64 } } else { -1 }]
        }
    }
}

/// Text of the same length where there is any, different in the character at (about) byte `i`.
fn near(b: &[u8], i: usize) -> S {
    let t = std::str::from_utf8(b).unwrap();
    let cs: Vec<char> = t.chars().collect();
    let k = if i == 0 { 0 } else { cs.len().saturating_sub(1) };
    let mut o: String = cs.iter().enumerate().map(|(j, c)| if j != k { *c } else if c.len_utf8() > 1 { char::from_u32(*c as u32 ^ 1).unwrap() } else if *c == 'q' { 'r' } else { 'q' }).collect();
    if o.is_empty() {
        o.push('q')
    }
    S::from(o.as_str())
}

pub fn run(c: &mut Ctx, steps: &[Step]) {
    let mut v: Option<S> = Some(S::new());
    let mut w: Option<S> = None;
    for st in steps {
        let a = &st.a;
        // borrowed text belongs to the caller
        let t = match st.op.as_str() {
            "fromstr" | "fromin" | "parse" | "assign" => text(a),
            _ => String::new(),
        };
        c.op(&st.op, a, st.fault, || {
            match st.op.as_str() {
                "new" => v = Some(S::new()),
                "default" => v = Some(S::default()),
                "newin" => v = Some(S::new_in(TA::default())),
                "withcap" => v = Some(S::with_capacity(a[0] as usize)),
                "fromstr" => v = Some(S::from(t.as_str())),
                "fromin" => v = Some(if a.len() % 2 == 0 { S::from_in(&t, TA::default()) } else { S::from_in(t.as_str(), TA::default()) }),
                "parse" => v = Some(if a.len() % 2 == 0 { S::from_str(&t).unwrap() } else { t.parse().unwrap() }),
                "push" => v.as_mut().unwrap().push(ch(a[0])),
                "pushn" => {
                    for _ in 0..a[1] {
                        v.as_mut().unwrap().push(ch(a[0]))
                    }
                }
                "popn" => return (0..a[0]).flat_map(|_| optc(v.as_mut().unwrap().pop())).collect(),
                "pop" => return optc(v.as_mut().unwrap().pop()),
                "insert" => v.as_mut().unwrap().insert(a[0] as usize, ch(a[1])),
                "remove" => return optc(v.as_mut().unwrap().remove(a[0] as usize)),
                "assign" => v.as_mut().unwrap().assign(&t),
                // assign the text of the clone
                "assignw" => {
                    if let Some(w) = w.as_ref() {
                        if st.a.len() % 2 == 0 {
                            v.as_mut().unwrap().assign(w)
                        } else {
                            v.as_mut().unwrap().assign(w.as_str())
                        }
                    }
                }
                "reserve" => v.as_mut().unwrap().reserve(a[0] as usize),
                "upper" => v.as_mut().unwrap().make_ascii_uppercase(),
                "clone" => w = Some(v.as_ref().unwrap().clone()),
                "swapw" => {
                    if let Some(w) = w.as_mut() {
                        std::mem::swap(v.as_mut().unwrap(), w)
                    }
                }
                "dropw" => w = None,
                "drop" => {
                    v = None;
                    v = Some(S::new())
                }
                "fin" => {
                    v = None;
                    w = None;
                }
                o => panic!("op {o}"),
            }
            vec![]
        });
        drop(t);
        let full = c.full();
        if let (Some(v), true) = (v.as_ref(), c.obs) {
            c.int("n", v.len() as i64);
            c.int("e", v.is_empty() as i64);
            c.int("f", v.is_full() as i64);
            c.int("k", v.capacity() as i64);
            if full {
                let b = match c.step % 3 {
                    0 => v.as_bytes(),
                    1 => AsRef::<[u8]>::as_ref(v),
                    _ => AsRef::<str>::as_ref(v).as_bytes(),
                };
                let ok = std::str::from_utf8(b).is_ok();
                c.int("ut", ok as i64);
                c.arr("b", &by(b));
                if ok {
                    c.arr("cp", &v.chars().map(|x| x as i64).collect::<Vec<_>>());
                    if c.step % 4 == 1 {
                        c.arr("dsp", &by(format!("{v}").as_bytes()));
                        c.arr("dbg", &by(format!("{v:?}").as_bytes()));
                    }
                    // equality with text known to be the same, and with different text
                    let same = S::from(std::str::from_utf8(b).unwrap());
                    let mut other = S::from(std::str::from_utf8(b).unwrap());
                    other.push('x');
                    c.arr("eq", &[(*v == same) as i64, (same == *v) as i64, (*v == other) as i64, (other != *v) as i64, (*v == near(b, 0)) as i64, (*v == near(b, b.len())) as i64]);
                }
            }
        }
        if let (Some(w), true) = (w.as_ref(), c.obs && full) {
            c.arr("wb", &by(w.as_bytes()));
            if let Some(v) = v.as_ref() {
                c.int("we", (v == w) as i64);
            }
        }
        if c.lay {
            if let Some(v) = v.as_ref() {
                c.arr("z", &nul(v));
            }
            if let Some(w) = w.as_ref() {
                c.arr("wz", &nul(w));
            }
        }
        c.end();
    }
}
