//! Default hashes of the basic types, and where tables with default hashes put such keys.
use crate::ctx::*;
use crate::talloc::*;
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::hash_map::HashMap;
use std::ffi::{c_char, CString};

fn limbs(h: usize) -> Vec<i64> {
    (0..4).map(|i| (h >> (16 * i) & 0xffff) as i64).collect()
}
fn bits(a: &[i64]) -> u64 {
    a.iter().enumerate().fold(0, |s, (i, x)| s | (*x as u64) << (16 * i))
}
#[repr(C)]
struct Node<K> {
    key: K,
    val: u32,
    next: *const Node<K>,
}
/// Put a key into a table with default hashing; where did it go?
fn place<K: PartialEq + Clone>(m: &mut HashMap<K, u32, TA>, k: K) -> Vec<i64>
where
    DefaultHash<K>: Hash<K>,
{
    m.insert(k.clone(), 7);
    assert!(m.get(&k) == Some(&7));
    unsafe {
        let obj = m as *const _ as *const u8;
        let arr = *(obj.add(8) as *const *const *const Node<K>);
        let bc = *(obj.add(16) as *const u32) as usize;
        for b in 0..bc {
            let mut n = *arr.add(b);
            while !n.is_null() {
                if (*n).key == k {
                    return vec![b as i64, bc as i64];
                }
                n = (*n).next;
            }
        }
    }
    vec![-1, 1]
}
fn ty<T: PartialEq + Clone>(v: T, m: &mut HashMap<T, u32, TA>) -> (Vec<i64>, Vec<i64>)
where
    DefaultHash<T>: Hash<T>,
{
    let h = limbs(DefaultHash::hash(&v));
    (h, if v == v { place(m, v) } else { vec![] })
}

#[derive(Default)]
struct Tables {
    u32: Option<HashMap<u32, u32, TA>>,
    i32: Option<HashMap<i32, u32, TA>>,
    u64: Option<HashMap<u64, u32, TA>>,
    i64: Option<HashMap<i64, u32, TA>>,
    f64: Option<HashMap<f64, u32, TA>>,
    str: Option<HashMap<&'static str, u32, TA>>,
    string: Option<HashMap<S, u32, TA>>,
}
type S = eastl_rs::String<TA>;
fn new<K: PartialEq>(o: &mut Option<HashMap<K, u32, TA>>) -> &mut HashMap<K, u32, TA>
where
    DefaultHash<K>: Hash<K>,
{
    o.get_or_insert_with(HashMap::new)
}

pub fn run(c: &mut Ctx, steps: &[Step]) {
    let mut t = Tables::default();
    for st in steps {
        let a = &st.a;
        let mut hb = vec![];
        c.op(&st.op, a, st.fault, || {
            let r;
            match st.op.as_str() {
                // type, then the bits in units of 16
                "int" => {
                    let b = bits(&a[1..]);
                    r = match a[0] {
                        0 => limbs(DefaultHash::hash(&(b as u8))),
                        1 => limbs(DefaultHash::hash(&(b as i8))),
                        2 => limbs(DefaultHash::hash(&(b as u16))),
                        3 => limbs(DefaultHash::hash(&(b as i16))),
                        4 => {
                            let (h, p) = ty(b as u32, new(&mut t.u32));
                            hb = p;
                            h
                        }
                        5 => {
                            let (h, p) = ty(b as i32, new(&mut t.i32));
                            hb = p;
                            h
                        }
                        6 => {
                            let (h, p) = ty(b, new(&mut t.u64));
                            hb = p;
                            h
                        }
                        7 => {
                            let (h, p) = ty(b as i64, new(&mut t.i64));
                            hb = p;
                            h
                        }
                        8 => limbs(DefaultHash::hash(&(b as usize))),
                        9 => limbs(DefaultHash::hash(&(b as isize))),
                        10 => limbs(DefaultHash::hash(&(b & 1 == 1))),
                        _ => panic!("type"),
                    }
                }
                "f32" => r = limbs(DefaultHash::hash(&f32::from_bits(bits(a) as u32))),
                "f64" => {
                    let (h, p) = ty(f64::from_bits(bits(a)), new(&mut t.f64));
                    hb = p;
                    r = h
                }
                // form, then the bytes of a text
                "txt" => {
                    let v: Vec<u8> = a[1..].iter().map(|x| *x as u8).collect();
                    let s = std::str::from_utf8(&v).unwrap();
                    r = match a[0] {
                        0 => limbs(DefaultHash::<str>::hash(s)),
                        1 => {
                            let s: &'static str = Box::leak(s.to_string().into_boxed_str());
                            hb = place(new(&mut t.str), s);
                            limbs(DefaultHash::<&str>::hash(&s))
                        }
                        2 => {
                            let z = CString::new(v.clone()).unwrap();
                            limbs(DefaultHash::<*const c_char>::hash(&(z.as_ptr())))
                        }
                        3 => {
                            let z = S::from(s);
                            hb = place(new(&mut t.string), z.clone());
                            limbs(DefaultHash::hash(&z))
                        }
                        // built character by character in a string with room to spare
                        4 => {
                            let mut z = S::with_capacity(v.len() + 9);
                            for ch in s.chars() {
                                z.push(ch)
                            }
                            hb = place(new(&mut t.string), z.clone());
                            limbs(DefaultHash::hash(&z))
                        }
                        // what is left after other text was removed again
                        5 => {
                            let mut z = S::from("xyz");
                            z.assign(s);
                            z.push('\u{20ac}');
                            z.insert(0, 'b');
                            z.insert(0, 'a');
                            z.pop();
                            z.remove(0);
                            z.remove(0);
                            hb = place(new(&mut t.string), z.clone());
                            limbs(DefaultHash::hash(&z))
                        }
                        6 => limbs(DefaultHash::hash(&eastl_rs::DefaultString::from(s))),
                        // the C view of an owned string
                        7 => {
                            let z = S::from(s);
                            let p = *(unsafe { &*(&z as *const S as *const usize) });
                            if v.is_empty() {
                                limbs(DefaultHash::hash(&z))
                            } else {
                                limbs(DefaultHash::<*const c_char>::hash(&(p as *const c_char)))
                            }
                        }
                        _ => panic!("form"),
                    }
                }
                // a C string of any bytes
                "cstr" => {
                    let z = CString::new(a.iter().map(|x| *x as u8).collect::<Vec<_>>()).unwrap();
                    r = limbs(DefaultHash::<*const c_char>::hash(&(z.as_ptr())))
                }
                o => panic!("op {o}"),
            }
            r
        });
        c.arr("hb", &hb);
        c.end();
    }
}
