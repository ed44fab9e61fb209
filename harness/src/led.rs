//! Element ledger: every element carries a serial number (token); the ledger knows which tokens are alive.
//! Also the fault injector (panic at the k-th user callback of a kind).
use std::cell::UnsafeCell;
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Live,
    Dropped,
    Gone, // handed back to the caller and disposed of by it
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fk {
    Clone,
    Drop,
    Eq,
    Cmp,
    Hash,
    Closure,
    Iter,
}

pub struct Led {
    pub info: Vec<(i64, St)>, // index = token - 1
    pub logging: bool,
    pub drops: Vec<i64>,
    pub clones: Vec<(i64, i64)>,
    pub ret: Vec<i64>,
    pub new: Vec<i64>,
    pub errs: Vec<&'static str>,
    pub fault: Option<(Fk, u32)>,
    pub fired: i64, // kind of the injected panic, 0: none
    pub hash_mode: i64,
    /// `==` tells apart elements that the containers' own equality function does not.
    pub strict_eq: bool,
    pub mute_faults: bool,
}

struct G(UnsafeCell<Option<Led>>);
unsafe impl Sync for G {}
static LED: G = G(UnsafeCell::new(None));

#[allow(static_mut_refs)]
pub fn led() -> &'static mut Led {
    unsafe {
        (*LED.0.get()).get_or_insert_with(|| Led {
            info: vec![],
            logging: false,
            drops: vec![],
            clones: vec![],
            ret: vec![],
            new: vec![],
            errs: vec![],
            fault: None,
            fired: 0,
            hash_mode: 0,
            strict_eq: false,
            mute_faults: false,
        })
    }
}

pub fn reset() {
    let l = led();
    l.info.clear();
    clear_step();
    l.hash_mode = 0;
    l.strict_eq = false;
    l.fault = None;
    l.fired = 0;
}

pub fn clear_step() {
    let l = led();
    l.drops.clear();
    l.clones.clear();
    l.ret.clear();
    l.new.clear();
    l.errs.clear();
}

/// A user callback of kind `k` happens: panic if the injector says so.
pub fn fault_point(k: Fk) {
    let l = led();
    if let Some((fk, n)) = l.fault {
        if fk == k && l.logging && !l.mute_faults {
            if n <= 1 {
                l.fault = None;
                l.fired = k as i64 + 1;
                std::panic::panic_any("injected");
            } else {
                l.fault = Some((fk, n - 1));
            }
        }
    }
}

const PADV: u32 = 0x5151_0000;

// the "wide" build has elements whose alignment exceeds a pointer's, the "tiny" build byte-aligned ones from one byte on
#[cfg_attr(feature = "wide", repr(C, align(16)))]
#[cfg_attr(not(feature = "wide"), repr(C))]
pub struct Elem<const P: usize> {
    s: Unit,
    pad: [Unit; P],
}
#[cfg(not(feature = "tiny"))]
type Unit = u32;
#[cfg(feature = "tiny")]
type Unit = u8;

/// A single byte cannot tell more than 255 elements apart: it stands for a value, not for an element.
const fn anon(p: usize) -> bool {
    cfg!(feature = "tiny") && p == 0
}
/// The only token of a value, where elements have no identity.
fn intern(v: i64) -> u32 {
    let l = led();
    let i = l.info.iter().position(|x| x.0 == v).unwrap_or_else(|| {
        l.info.push((v, St::Live));
        l.info.len() - 1
    });
    if i >= 255 {
        std::process::exit(97); // not a history for elements of one byte
    }
    i as u32 + 1
}
fn fill(s: u32, i: usize) -> Unit {
    (PADV ^ s.wrapping_mul(2654435761).wrapping_add(i as u32)) as Unit
}

impl<const P: usize> Elem<P> {
    pub fn new(v: i64) -> Self {
        if anon(P) {
            return Self::raw(intern(v));
        }
        let l = led();
        l.info.push((v, St::Live));
        let s = l.info.len() as u32;
        if l.logging {
            l.new.push(s as i64);
        }
        Self::raw(s)
    }
    #[cfg(not(feature = "tiny"))]
    fn raw(s: u32) -> Self {
        Self { s, pad: std::array::from_fn(|i| fill(s, i)) }
    }
    #[cfg(feature = "tiny")]
    fn raw(s: u32) -> Self {
        if P < 2 && s >> (8 * (P + 1)) != 0 {
            std::process::exit(97);
        }
        Self { s: s as u8, pad: std::array::from_fn(|i| if i < 2 { (s >> (8 * (i + 1))) as u8 } else { fill(s, i) }) }
    }
    #[cfg(not(feature = "tiny"))]
    fn serial(&self) -> u32 {
        self.s
    }
    #[cfg(feature = "tiny")]
    fn serial(&self) -> u32 {
        self.pad.iter().take(2).enumerate().fold(self.s as u32, |a, (i, x)| a | (*x as u32) << (8 * (i + 1)))
    }
    /// Token, or -1 if the bytes are not an element at all.
    pub fn tok(&self) -> i64 {
        let l = led();
        let s = self.serial();
        if s == 0 || s as usize > l.info.len() {
            return -1;
        }
        for (i, p) in self.pad.iter().enumerate().skip(if cfg!(feature = "tiny") { 2 } else { 0 }) {
            if *p != fill(s, i) {
                return -1;
            }
        }
        s as i64
    }
    pub fn val(&self) -> i64 {
        let t = self.tok();
        if t < 0 {
            return -1;
        }
        led().info[t as usize - 1].0
    }
    /// What equality, ordering and hashing look at: values 1000 apart are equal keys with different identities.
    pub fn key(&self) -> i64 {
        let v = self.val();
        if v < 0 {
            v
        } else {
            v % 1000
        }
    }
    pub fn alive(&self) -> bool {
        let t = self.tok();
        t > 0 && led().info[t as usize - 1].1 == St::Live
    }
    pub fn set_val(&mut self, v: i64) {
        if anon(P) {
            *self = Self::raw(intern(v));
            return;
        }
        let t = self.tok();
        if t > 0 {
            led().info[t as usize - 1].0 = v;
        }
    }
    /// The caller received this element from the container: note it, then dispose of it (not a container drop).
    pub fn taken(self) -> i64 {
        let l = led();
        let t = self.tok();
        let v = self.val();
        if t < 0 {
            l.errs.push("returned-garbage");
        } else if !anon(P) {
            l.ret.push(t);
            let st = &mut l.info[t as usize - 1].1;
            if *st != St::Live {
                l.errs.push("returned-dead");
            }
            *st = St::Gone;
        }
        std::mem::forget(self);
        v
    }
}

// the "plain" build has elements that need no drop
#[cfg(not(feature = "plain"))]
impl<const P: usize> Drop for Elem<P> {
    fn drop(&mut self) {
        let l = led();
        let t = self.tok();
        if t < 0 {
            l.errs.push("drop-garbage");
        } else {
            let st = l.info[t as usize - 1].1;
            if st != St::Live {
                l.errs.push("drop-dead");
            } else if !anon(P) {
                l.info[t as usize - 1].1 = St::Dropped;
                if l.logging {
                    l.drops.push(t);
                }
            }
        }
        if !std::thread::panicking() {
            fault_point(Fk::Drop);
        }
    }
}

impl<const P: usize> Clone for Elem<P> {
    fn clone(&self) -> Self {
        fault_point(Fk::Clone);
        let l = led();
        let t = self.tok();
        if !self.alive() {
            l.errs.push("clone-dead");
        }
        let v = self.val();
        if anon(P) {
            return Self::raw(self.s as u32);
        }
        l.info.push((v, St::Live));
        let s = l.info.len() as u32;
        if l.logging {
            l.clones.push((t, s as i64));
        }
        Self::raw(s)
    }
}

impl<const P: usize> fmt::Debug for Elem<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.val())
    }
}
impl<const P: usize> PartialEq for Elem<P> {
    fn eq(&self, o: &Self) -> bool {
        fault_point(Fk::Eq);
        if !self.alive() || !o.alive() {
            led().errs.push("eq-dead");
        }
        if led().strict_eq {
            return self.val() == o.val();
        }
        self.key() == o.key()
    }
}
impl<const P: usize> Eq for Elem<P> {}
impl<const P: usize> PartialOrd for Elem<P> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        fault_point(Fk::Cmp);
        if !self.alive() || !o.alive() {
            led().errs.push("cmp-dead");
        }
        self.key().partial_cmp(&o.key())
    }
}

/// Hash function family used by the hash containers' harness (consistent with equality of `val`).
pub fn hash_val(v: i64) -> usize {
    match led().hash_mode {
        0 => v as usize,
        1 => 0,
        2 => (v % 2) as usize,
        3 => (v % 3) as usize,
        4 => (v as usize).wrapping_mul(0x9E37_79B9_7F4A_7C15), // 64-bit spread
        5 => (v * 11) as usize,
        6 => usize::MAX - v as usize,
        7 => (v / 4) as usize,
        _ => v as usize,
    }
}
pub struct EH;
impl<const P: usize> eastl_rs::Hash<Elem<P>> for EH {
    fn hash(v: &Elem<P>) -> usize {
        fault_point(Fk::Hash);
        if !v.alive() {
            led().errs.push("hash-dead");
        }
        hash_val(v.key())
    }
}
impl<const P: usize> eastl_rs::Hash<Elem<P>> for eastl_rs::hash::DefaultHash<Elem<P>> {
    fn hash(v: &Elem<P>) -> usize {
        <EH as eastl_rs::Hash<Elem<P>>>::hash(v)
    }
}
/// A custom equality: the key class, even where `==` is stricter.
pub struct EqE;
impl<const P: usize> eastl_rs::Equals<Elem<P>> for EqE {
    fn equals(l: &Elem<P>, r: &Elem<P>) -> bool {
        fault_point(Fk::Eq);
        if !l.alive() || !r.alive() {
            led().errs.push("eq-dead");
        }
        l.key() == r.key()
    }
}
