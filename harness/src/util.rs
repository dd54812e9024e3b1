use std::collections::{BTreeMap, HashSet};

pub type R<T = ()> = Result<T, String>;

/// What the monitors saw while running cases.
pub struct Ctx {
    pub checks: u64,
    pub counters: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub cases: u64,
    pub trivial: u64,
    pub samples: Vec<String>,
    pub thorough: bool,
    /// Interpreted (Miri): keep everything tiny.
    pub tiny: bool,
    pub want_sample: bool,
    pub index: u64,
    pub case_sig: u64,
    pub case_trivial: bool,
    pub case_desc: String,
}

impl Ctx {
    pub fn new(thorough: bool, tiny: bool) -> Ctx {
        Ctx {
            checks: 0,
            counters: BTreeMap::new(),
            sigs: HashSet::new(),
            cases: 0,
            trivial: 0,
            samples: Vec::new(),
            thorough,
            tiny,
            want_sample: false,
            index: 0,
            case_sig: 0,
            case_trivial: false,
            case_desc: String::new(),
        }
    }
    pub fn count(&mut self, what: &str) {
        self.add(what, 1)
    }
    pub fn add(&mut self, what: &str, n: u64) {
        match self.counters.get_mut(what) {
            Some(it) => *it += n,
            None => {
                self.counters.insert(what.to_string(), n);
            }
        }
    }
    /// Mixes `x` into the signature of the current case.
    pub fn sig(&mut self, x: u64) {
        self.case_sig = crate::rng::mix(self.case_sig ^ x);
    }
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            if !self.case_desc.is_empty() {
                self.case_desc.push_str("; ");
            }
            let s = f();
            self.case_desc.push_str(&clip(&s, 600));
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut end = n;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    format!("{}…({} bytes)", &s[..end], s.len())
}

#[macro_export]
macro_rules! ck {
    ($cx:expr, $c:expr, $($f:tt)+) => {{
        $cx.checks += 1;
        if !($c) {
            return Err(format!($($f)+));
        }
    }};
}

#[macro_export]
macro_rules! ckeq {
    ($cx:expr, $a:expr, $b:expr, $($f:tt)+) => {{
        $cx.checks += 1;
        match (&$a, &$b) {
            (a, b) => {
                if a != b {
                    return Err(format!(
                        "{}: got {}, expected {}",
                        format!($($f)+),
                        $crate::util::clip(&format!("{:?}", a), 400),
                        $crate::util::clip(&format!("{:?}", b), 400)
                    ));
                }
            }
        }
    }};
}

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|e| panic_text(&e))
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    let msg = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic with a foreign payload".to_string()
    };
    let loc = LOC.with(|l| l.borrow().clone());
    clip(&format!("{} [{}]", msg, loc), 500)
}

thread_local! {
    pub static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
    pub static LOC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _ = crate::mem::PANICS.try_with(|it| it.set(it.get() + 1));
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LOC.with(|l| *l.borrow_mut() = loc);
    }));
}
