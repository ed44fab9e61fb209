//! Trace recorder: one JSON object per trace, one event per operation.
use crate::led::{self, led, Fk};
use crate::talloc::{self, mem};
use std::fmt::Write as _;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Step {
    pub op: String,
    pub a: Vec<i64>,
    pub fault: Option<(Fk, u32)>,
}

pub struct Ctx {
    pub w: Box<dyn Write>,
    pub flush: bool,
    pub cfg: std::collections::HashMap<String, String>,
    pub own: bool,
    pub mem: bool,
    pub obs: bool,
    pub lay: bool,
    pub every: usize,
    pub step: usize,
    pub nsteps: usize,
    ev: String,
    nev: usize,
    pending: Vec<[i64; 5]>,
}

impl Ctx {
    pub fn new(w: Box<dyn Write>, flush: bool) -> Self {
        Ctx {
            w,
            flush,
            cfg: Default::default(),
            own: false,
            mem: false,
            obs: true,
            lay: false,
            every: 1,
            step: 0,
            nsteps: 0,
            ev: String::new(),
            nev: 0,
            pending: vec![],
        }
    }
    pub fn geti(&self, k: &str, d: i64) -> i64 {
        self.cfg.get(k).map_or(d, |s| s.parse().unwrap())
    }
    pub fn begin(&mut self, tid: i64, kind: &str) {
        let o = self.cfg.get("obs").cloned().unwrap_or_else(|| "c".into());
        self.own = o.contains('o');
        self.mem = o.contains('m');
        self.obs = o.contains('c');
        self.lay = o.contains('l');
        self.every = self.geti("every", 1) as usize;
        led::reset();
        talloc::reset();
        led().hash_mode = self.geti("h", 0);
        let mut s = format!("{{\"tid\":{tid},\"kind\":\"{kind}\",\"cfg\":{{\"x\":0");
        let mut ks: Vec<_> = self.cfg.iter().collect();
        ks.sort();
        for (k, v) in ks {
            if let Ok(n) = v.parse::<i64>() {
                write!(s, ",\"{k}\":{n}").unwrap();
            }
        }
        s.push_str("},\"ev\":[");
        self.put(&s);
        self.nev = 0;
        self.step = 0;
        self.pending.clear();
    }
    /// Something done before the first operation: its allocator calls are logged with that operation.
    pub fn pre<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let m = mem();
        m.log.clear();
        m.logging = self.mem;
        let r = f();
        m.logging = false;
        self.pending.append(&mut m.log);
        r
    }
    fn put(&mut self, s: &str) {
        self.w.write_all(s.as_bytes()).unwrap();
        if self.flush {
            self.w.flush().unwrap();
        }
    }
    pub fn end_trace(&mut self) {
        self.put("]}\n");
    }
    /// Is this a step at which full contents are logged?
    pub fn full(&self) -> bool {
        self.every <= 1 || self.step % self.every == 0 || self.step + 1 >= self.nsteps
    }
    /// Execute one operation of the container under test and open its event.
    pub fn op<F: FnOnce() -> Vec<i64>>(&mut self, op: &str, a: &[i64], fault: Option<(Fk, u32)>, f: F) -> bool {
        led::clear_step();
        let l = led();
        let m = mem();
        m.log.clear();
        m.errs.clear();
        if self.flush {
            // name the operation before running it, so that a crash is attributed
            let s = format!("#{op} {a:?}\n");
            std::io::stderr().write_all(s.as_bytes()).unwrap();
        }
        let allocs0 = m.allocs;
        l.fault = fault;
        l.fired = 0;
        l.logging = true;
        m.logging = self.mem;
        let r = catch_unwind(AssertUnwindSafe(f));
        l.logging = false;
        m.logging = false;
        l.fault = None;
        let p = r.is_err();
        let r = r.unwrap_or_default();
        let fired = l.fired;
        let allocs = mem().allocs - allocs0;
        self.ev.clear();
        write!(self.ev, "{{\"op\":\"{op}\"").unwrap();
        self.arr("a", a);
        self.arr("r", &r);
        self.int("p", p as i64);
        self.int("x", fired);
        if self.mem {
            self.int("na", allocs);
        }
        p
    }
    pub fn int(&mut self, k: &str, v: i64) {
        write!(self.ev, ",\"{k}\":{v}").unwrap();
    }
    pub fn arr(&mut self, k: &str, v: &[i64]) {
        write!(self.ev, ",\"{k}\":[").unwrap();
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.ev.push(',');
            }
            write!(self.ev, "{x}").unwrap();
        }
        self.ev.push(']');
    }
    pub fn arr2(&mut self, k: &str, v: &[Vec<i64>]) {
        write!(self.ev, ",\"{k}\":[").unwrap();
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.ev.push(',');
            }
            self.ev.push('[');
            for (j, y) in x.iter().enumerate() {
                if j > 0 {
                    self.ev.push(',');
                }
                write!(self.ev, "{y}").unwrap();
            }
            self.ev.push(']');
        }
        self.ev.push(']');
    }
    pub fn strs(&mut self, k: &str, v: &[&str]) {
        write!(self.ev, ",\"{k}\":[").unwrap();
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.ev.push(',');
            }
            write!(self.ev, "\"{x}\"").unwrap();
        }
        self.ev.push(']');
    }
    /// Ownership observation: what the operation created, dropped, handed back; which tokens the container(s) hold now.
    pub fn own(&mut self, live: &[i64]) {
        self.own_(Some(live))
    }
    /// As `own`, when the contents cannot be observed at this moment.
    pub fn own_unseen(&mut self) {
        self.own_(None)
    }
    fn own_(&mut self, live: Option<&[i64]>) {
        if !self.own {
            return;
        }
        let l = led();
        let (new, ret, drops, errs) = (l.new.clone(), l.ret.clone(), l.drops.clone(), l.errs.clone());
        let cl: Vec<i64> = l.clones.iter().map(|x| x.1).collect();
        self.arr("on", &new);
        self.arr("or", &ret);
        self.arr("od", &drops);
        self.arr("oc", &cl);
        if let Some(live) = live {
            self.arr("ol", live);
        }
        self.strs("oe", &errs);
    }
    fn membits(&mut self) {
        if !self.mem {
            return;
        }
        if self.full() {
            talloc::sweep();
        }
        let m = mem();
        let log: Vec<Vec<i64>> = self.pending.drain(..).chain(m.log.iter().copied()).map(|x| x.to_vec()).collect();
        let errs = m.errs.clone();
        self.arr2("m", &log);
        self.strs("me", &errs);
    }
    pub fn end(&mut self) {
        self.membits();
        let mut s = std::mem::take(&mut self.ev);
        s.push('}');
        if self.nev > 0 {
            s.insert(0, ',');
        }
        self.put(&s);
        self.nev += 1;
        self.ev = s;
        self.step += 1;
    }
}

pub fn digits(s: &str) -> Vec<i64> {
    let mut v = vec![];
    let mut cur: Option<i64> = None;
    let mut neg = false;
    let mut prev = ' ';
    for c in s.chars() {
        if let Some(d) = c.to_digit(10) {
            if cur.is_none() {
                neg = prev == '-';
            }
            cur = Some(cur.unwrap_or(0).wrapping_mul(10).wrapping_add(d as i64));
        } else if let Some(x) = cur.take() {
            v.push(if neg { -x } else { x });
        }
        prev = c;
    }
    if let Some(x) = cur {
        v.push(if neg { -x } else { x });
    }
    v
}

/// Debug text, cut off when it does not end.
pub fn show<T: std::fmt::Debug>(v: &T) -> String {
    struct W(String);
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if self.0.len() > 4_000_000 {
                return Err(std::fmt::Error);
            }
            self.0.push_str(s);
            Ok(())
        }
    }
    let mut w = W(String::new());
    let _ = write!(w, "{v:?}");
    w.0
}
