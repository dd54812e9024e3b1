//! The reference value of a tree (plain nested lists), its flattened form, and generators.
use std::sync::{Arc, OnceLock};

use crate::rng::{mix, Rng};

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum T {
    N(u16, Vec<Arc<T>>),
    K(u16, Arc<str>),
}

impl T {
    pub fn kind(&self) -> u16 {
        match self {
            T::N(k, _) | T::K(k, _) => *k,
        }
    }
    pub fn is_node(&self) -> bool {
        matches!(self, T::N(..))
    }
    pub fn kids(&self) -> &[Arc<T>] {
        match self {
            T::N(_, kids) => kids,
            T::K(..) => &[],
        }
    }
    pub fn len(&self) -> u64 {
        match self {
            T::N(_, kids) => kids.iter().map(|it| it.len()).sum(),
            T::K(_, t) => t.len() as u64,
        }
    }
    pub fn count(&self) -> usize {
        1 + self.kids().iter().map(|it| it.count()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.kids().iter().map(|it| it.depth()).max().unwrap_or(0)
    }
    pub fn push_text(&self, out: &mut String) {
        match self {
            T::N(_, kids) => kids.iter().for_each(|it| it.push_text(out)),
            T::K(_, t) => out.push_str(t),
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.push_text(&mut s);
        s
    }
    pub fn sig(&self) -> u64 {
        match self {
            T::N(k, kids) => {
                let mut h = mix(*k as u64 + 0x1_0000);
                for it in kids {
                    h = mix(h ^ it.sig());
                }
                mix(h + 1)
            }
            T::K(k, t) => {
                let mut h = mix(*k as u64 + 0x2_0000);
                if t.len() > 4096 {
                    return mix(h ^ t.len() as u64);
                }
                for b in t.as_bytes().chunks(8) {
                    let mut x = [0; 8];
                    x[..b.len()].copy_from_slice(b);
                    h = mix(h ^ u64::from_le_bytes(x));
                }
                mix(h ^ t.len() as u64)
            }
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_to(&mut s, 700);
        s
    }
    fn show_to(&self, s: &mut String, max: usize) {
        if s.len() > max {
            if !s.ends_with('…') {
                s.push('…');
            }
            return;
        }
        match self {
            T::N(k, kids) => {
                s.push_str(&format!("{}(", k));
                for (i, it) in kids.iter().enumerate() {
                    if s.len() > max {
                        s.push('…');
                        break;
                    }
                    if i > 0 {
                        s.push(' ');
                    }
                    it.show_to(s, max);
                }
                s.push(')');
            }
            T::K(k, t) => s.push_str(&format!("{}:{:?}", k, crate::util::clip(t, 40))),
        }
    }
}

pub const NONE: u32 = u32::MAX;

/// Preorder arena of a `T`.
#[derive(Default)]
pub struct Flat {
    pub kind: Vec<u16>,
    pub parent: Vec<u32>,
    pub idx: Vec<u32>,
    pub kids: Vec<Vec<u32>>,
    pub start: Vec<u64>,
    pub len: Vec<u64>,
    /// One past the last descendant.
    pub end: Vec<u32>,
    pub text: Vec<Option<Arc<str>>>,
}

impl Flat {
    pub fn new(t: &T) -> Flat {
        let mut f = Flat::default();
        let mut pos = 0;
        f.go(t, NONE, 0, &mut pos);
        f
    }
    fn go(&mut self, t: &T, parent: u32, idx: u32, pos: &mut u64) -> u32 {
        let id = self.kind.len() as u32;
        self.kind.push(t.kind());
        self.parent.push(parent);
        self.idx.push(idx);
        self.kids.push(Vec::new());
        self.start.push(*pos);
        self.len.push(0);
        self.end.push(0);
        self.text.push(None);
        match t {
            T::N(_, kids) => {
                let mut ids = Vec::with_capacity(kids.len());
                for (i, it) in kids.iter().enumerate() {
                    ids.push(self.go(it, id, i as u32, pos));
                }
                self.kids[id as usize] = ids;
            }
            T::K(_, text) => {
                *pos += text.len() as u64;
                self.text[id as usize] = Some(text.clone());
            }
        }
        self.len[id as usize] = *pos - self.start[id as usize];
        self.end[id as usize] = self.kind.len() as u32;
        id
    }
    pub fn n(&self) -> usize {
        self.kind.len()
    }
    pub fn is_node(&self, id: usize) -> bool {
        self.text[id].is_none()
    }
    pub fn parent(&self, id: usize) -> Option<usize> {
        (self.parent[id] != NONE).then(|| self.parent[id] as usize)
    }
    pub fn kid(&self, id: usize, i: usize) -> Option<usize> {
        self.kids[id].get(i).map(|it| *it as usize)
    }
    pub fn path(&self, mut id: usize) -> Vec<usize> {
        let mut res = Vec::new();
        while let Some(p) = self.parent(id) {
            res.push(self.idx[id] as usize);
            id = p;
        }
        res.reverse();
        res
    }
    pub fn ancestors(&self, id: usize) -> Vec<usize> {
        let mut res = vec![id];
        let mut cur = id;
        while let Some(p) = self.parent(cur) {
            res.push(p);
            cur = p;
        }
        res
    }
    pub fn text_of(&self, id: usize) -> String {
        let mut s = String::new();
        for i in id..self.end[id] as usize {
            if let Some(t) = &self.text[i] {
                s.push_str(t);
            }
        }
        s
    }
    pub fn term(&self, id: usize) -> Arc<T> {
        match &self.text[id] {
            Some(t) => Arc::new(T::K(self.kind[id], t.clone())),
            None => Arc::new(T::N(self.kind[id], self.kids[id].iter().map(|it| self.term(*it as usize)).collect())),
        }
    }
    pub fn stop(&self, id: usize) -> u64 {
        self.start[id] + self.len[id]
    }
}

// ---------------------------------------------------------------------------------------------
// generators

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Text {
    /// Few short strings, so that equal tokens abound.
    Few,
    /// Few pairs that are alike: equal hashes (of today's hasher), or one byte of difference.
    Twins,
    /// Short random strings over a mixed alphabet.
    Mixed,
    /// Multi-byte heavy.
    Wide,
    /// Every token text is different.
    Unique,
    /// Lengths around the debug cut-off and other limits.
    Limits,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub budget: usize,
    pub max_kids: usize,
    pub max_depth: usize,
    pub kinds: Vec<u16>,
    pub uniq_kinds: bool,
    pub text: Text,
    pub p_node: usize,
    pub p_empty_node: usize,
    pub p_empty_tok: usize,
    pub p_dup: usize,
}

impl Cfg {
    pub fn random(rng: &mut Rng, budget: usize) -> Cfg {
        let kinds: Vec<u16> = match rng.below(5) {
            0 => vec![1],
            1 => vec![1, 2, 3],
            2 => vec![0, 1, u16::MAX],
            3 => (0..12).collect(),
            _ => (0..40).map(|_| rng.u64() as u16).collect(),
        };
        let text = *rng.pick(&[Text::Few, Text::Few, Text::Mixed, Text::Wide, Text::Unique, Text::Limits, Text::Twins]);
        Cfg {
            budget: rng.range(1, budget.max(2)),
            max_kids: *rng.pick(&[2, 3, 4, 6, 12, 40]),
            max_depth: *rng.pick(&[2, 3, 5, 9, 30]),
            kinds,
            uniq_kinds: rng.pct(15),
            text,
            p_node: rng.range(20, 75),
            p_empty_node: *rng.pick(&[0, 5, 15, 40]),
            p_empty_tok: *rng.pick(&[0, 5, 20, 50]),
            p_dup: *rng.pick(&[0, 10, 40]),
        }
    }
}

pub struct Gen<'a> {
    pub rng: &'a mut Rng,
    pub cfg: Cfg,
    pool: Vec<Arc<T>>,
    next_kind: u16,
    next_text: u32,
    twins: usize,
}

const WIDE: &[char] = &['é', 'ß', '日', '本', '語', '🦀', '𝄞', '\u{301}', '\u{200d}', 'x', 'Ω', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
const MIXED: &[char] = &['a', 'b', 'c', ' ', '\n', '\t', '(', ')', '+', '"', '\\', '\0', '\r', '0', 'é', '日', '🦀', '\u{7f}', '\u{85}'];

pub fn rand_str(rng: &mut Rng, alphabet: &[char], n: usize) -> String {
    (0..n).map(|_| *rng.pick(alphabet)).collect()
}

thread_local! {
    /// Unless 0, all texts are changed, so that the same choices give another tree of equal shape.
    pub static TWEAK: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    /// Are all random trees tiny?
    pub static CHURN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

impl<'a> Gen<'a> {
    pub fn new(rng: &'a mut Rng, cfg: Cfg) -> Gen<'a> {
        let twins = rng.below(1 << 20);
        Gen { rng, cfg, pool: Vec::new(), next_kind: 100, next_text: 0, twins }
    }
    pub fn kind(&mut self) -> u16 {
        if self.cfg.uniq_kinds {
            self.next_kind = self.next_kind.wrapping_add(1);
            self.next_kind
        } else {
            *self.rng.pick(&self.cfg.kinds)
        }
    }
    pub fn text(&mut self) -> Arc<str> {
        let s = self.plain_text();
        match TWEAK.get() {
            // every other text becomes longer or shorter
            0 => s,
            n if s.len() as u64 % 2 == n % 2 => format!("{}\u{e9}", s).into(),
            _ => s.char_indices().next_back().map_or(s.clone(), |(i, _)| s[..i].into()),
        }
    }
    fn plain_text(&mut self) -> Arc<str> {
        if self.rng.pct(self.cfg.p_empty_tok) {
            return "".into();
        }
        match self.cfg.text {
            Text::Few => (*self.rng.pick(&["a", "b", "ab", " ", "+", "é", "foo"])).into(),
            Text::Twins => {
                let all = twins();
                let pair = &all[(self.twins + self.rng.below(3)) % all.len()];
                pair[self.rng.below(2)].clone()
            }
            Text::Mixed => {
                let n = self.rng.range(1, 9);
                rand_str(self.rng, MIXED, n).into()
            }
            Text::Wide => {
                let n = self.rng.range(1, 9);
                rand_str(self.rng, WIDE, n).into()
            }
            Text::Unique => {
                self.next_text += 1;
                format!("t{}", self.next_text).into()
            }
            Text::Limits => {
                let mut n = *self.rng.pick(&[1, 2, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30, 60, 255, 256, 257]);
                if !cfg!(miri) && self.rng.pct(3) {
                    n = *self.rng.pick(&[511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]);
                    n = if self.rng.bool() { n } else { self.rng.below(n) };
                }
                let mut s = String::new();
                let alphabet = if self.rng.bool() { WIDE } else { MIXED };
                while s.len() < n {
                    let c = *self.rng.pick(alphabet);
                    if s.len() + c.len_utf8() <= n {
                        s.push(c);
                    } else {
                        s.push('z');
                    }
                }
                s.into()
            }
        }
    }
    pub fn token(&mut self) -> Arc<T> {
        let k = self.kind();
        Arc::new(T::K(k, self.text()))
    }
    fn node(&mut self, depth: usize, left: &mut isize) -> Arc<T> {
        *left -= 1;
        let k = self.kind();
        let mut kids = Vec::new();
        if !(self.rng.pct(self.cfg.p_empty_node)) {
            let want = self.rng.range(1, self.cfg.max_kids);
            for _ in 0..want {
                if *left <= 0 {
                    break;
                }
                if !self.pool.is_empty() && self.rng.pct(self.cfg.p_dup) {
                    let t = self.rng.pick(&self.pool).clone();
                    let n = t.count() as isize;
                    if n <= *left {
                        *left -= n;
                        kids.push(t);
                        continue;
                    }
                }
                let t = if depth < self.cfg.max_depth && self.rng.pct(self.cfg.p_node) {
                    self.node(depth + 1, left)
                } else {
                    *left -= 1;
                    self.token()
                };
                if self.cfg.p_dup > 0 && self.pool.len() < 24 {
                    self.pool.push(t.clone());
                }
                kids.push(t);
            }
        }
        Arc::new(T::N(k, kids))
    }
    /// A tree with a node at the root. Wants to use up its budget.
    pub fn root(&mut self) -> Arc<T> {
        let mut left = self.cfg.budget as isize;
        if self.rng.pct(4) {
            left = 1;
        }
        let first = self.node(1, &mut left);
        if left <= 1 {
            return first;
        }
        // use up what is left with further children of the root
        let mut kids = first.kids().to_vec();
        let mut guard = 0;
        while left > 0 && guard < 200 && kids.len() < self.cfg.max_kids * 3 {
            guard += 1;
            let t = if self.rng.pct(self.cfg.p_node) {
                self.node(2, &mut left)
            } else {
                left -= 1;
                self.token()
            };
            kids.push(t);
        }
        Arc::new(T::N(first.kind(), kids))
    }
}

/// A random tree with at most about `budget` elements.
pub fn rand_term(rng: &mut Rng, budget: usize) -> Arc<T> {
    if CHURN.get() {
        return tiny_term(rng);
    }
    let cfg = Cfg::random(rng, budget);
    Gen::new(rng, cfg).root()
}

/// A random tree of a random shape family, including degenerate ones.
pub fn rand_shape(rng: &mut Rng, budget: usize) -> Arc<T> {
    if CHURN.get() {
        return tiny_term(rng);
    }
    match rng.below(20) {
        0 => chain(rng, budget.min(120)),
        1 => wide(rng, budget.min(300)),
        2 => same(rng, budget.min(60)),
        3 => empties(rng, budget.min(50)),
        4 => runs(rng, budget * 2),
        _ => rand_term(rng, budget),
    }
}

/// One of few shapes, kinds and texts, so that many such trees are alike in what they allocate.
pub fn tiny_term(rng: &mut Rng) -> Arc<T> {
    fn go(rng: &mut Rng, depth: usize) -> Arc<T> {
        if depth > 0 && (depth > 3 || rng.pct(50)) {
            return k(1 + rng.below(3) as u16, *rng.pick(&["a", "b", "ab", "", "abc"]));
        }
        let n = if depth == 0 { rng.range(1, 3) } else { *rng.pick(&[0, 1, 1, 2, 2, 2, 3]) };
        Arc::new(T::N(1 + rng.below(3) as u16, (0..n).map(|_| go(rng, depth + 1)).collect()))
    }
    if rng.pct(20) {
        let n = *rng.pick(&[4, 5, 8]);
        return Arc::new(T::N(1 + rng.below(3) as u16, (0..n).map(|_| go(rng, 3)).collect()));
    }
    go(rng, 0)
}

/// Long runs of children of one sort, on one or two levels: empty nodes, empty tokens, nodes that
/// only hold such, tokens, nodes with text.
pub fn runs(rng: &mut Rng, budget: usize) -> Arc<T> {
    fn list(rng: &mut Rng, left: &mut isize, depth: usize) -> Vec<Arc<T>> {
        let mut kids = Vec::new();
        for _ in 0..rng.range(1, 6) {
            let sort = rng.below(if depth < 2 { 7 } else { 5 });
            let most = *rng.pick(&[1, 3, 20, 45, 90]);
            for _ in 0..rng.range(1, most) {
                if *left <= 0 {
                    return kids;
                }
                *left -= 1;
                kids.push(match sort {
                    0 => Arc::new(T::N(2, vec![])),
                    1 => k(1, ""),
                    2 => Arc::new(T::N(2, vec![if rng.bool() { k(1, "") } else { Arc::new(T::N(2, vec![])) }])),
                    3 => k(3, rng.pick(&["x", "yy", "é"])),
                    4 => Arc::new(T::N(4, vec![k(3, "c")])),
                    _ => Arc::new(T::N(5, list(rng, left, depth + 1))),
                });
                if sort > 4 {
                    break;
                }
            }
        }
        kids
    }
    let mut left = budget as isize;
    Arc::new(T::N(50, list(rng, &mut left, 0)))
}

fn k(kind: u16, t: &str) -> Arc<T> {
    Arc::new(T::K(kind, t.into()))
}

/// One long path, with tokens or empty nodes hanging off it on either side.
pub fn chain(rng: &mut Rng, depth: usize) -> Arc<T> {
    let style = rng.below(4);
    let mut t = match rng.below(3) {
        0 => k(9, "leaf"),
        1 => k(9, ""),
        _ => Arc::new(T::N(8, vec![])),
    };
    let least = if depth >= 500 { depth / 2 } else { 1 };
    for i in 0..rng.range(least, depth.max(2)) {
        let kind = (i % 7) as u16;
        let mut kids = Vec::new();
        if style & 1 == 1 && rng.bool() {
            kids.push(if rng.bool() { k(20, "l") } else { Arc::new(T::N(21, vec![])) });
        }
        kids.push(t);
        if style & 2 == 2 && rng.bool() {
            kids.push(if rng.bool() { k(22, "rr") } else { Arc::new(T::N(23, vec![])) });
        }
        t = Arc::new(T::N(kind, kids));
    }
    if !t.is_node() {
        t = Arc::new(T::N(7, vec![t]));
    }
    t
}

pub fn wide(rng: &mut Rng, n: usize) -> Arc<T> {
    let mut kids = Vec::new();
    let style = rng.below(3);
    for i in 0..n {
        kids.push(match style {
            0 => k((i % 5) as u16, "x"),
            1 => {
                if rng.bool() {
                    k(3, "yy")
                } else {
                    Arc::new(T::N((i % 3) as u16, vec![k(1, "é")]))
                }
            }
            _ => match rng.below(4) {
                0 => k(1, ""),
                1 => Arc::new(T::N(2, vec![])),
                2 => k(3, "ab"),
                _ => Arc::new(T::N(4, vec![k(1, ""), k(3, "c")])),
            },
        });
    }
    Arc::new(T::N(50, kids))
}

/// Equal subtrees at every level.
pub fn same(rng: &mut Rng, budget: usize) -> Arc<T> {
    let mut t = k(1, rng.pick(&["a", "", "é"]));
    let fan = rng.range(1, 4);
    loop {
        let n = Arc::new(T::N(1, vec![t.clone(); fan]));
        if n.count() > budget || (fan == 1 && n.count() > 12) {
            if t.is_node() {
                return t;
            }
            return n;
        }
        t = n;
    }
}

/// No text at all, or hardly any.
pub fn empties(rng: &mut Rng, budget: usize) -> Arc<T> {
    let mut cfg = Cfg::random(rng, budget);
    cfg.p_empty_tok = *rng.pick(&[85, 100]);
    cfg.p_empty_node = 30;
    Gen::new(rng, cfg).root()
}

/// A huge text shared by everybody who asks.
pub fn big_text(log2: u32) -> Arc<str> {
    static BIG: OnceLock<[Arc<str>; 2]> = OnceLock::new();
    let b = BIG.get_or_init(|| {
        let s: String = "0123456789abcde\n".repeat((1 << 26) / 16);
        [s.as_str().into(), s[..1 << 20].into()]
    });
    if log2 >= 26 {
        b[0].clone()
    } else {
        b[1].clone()
    }
}

pub fn rand_text(rng: &mut Rng, max_chars: usize) -> String {
    let n = rng.below(max_chars + 1);
    let a = if rng.bool() { WIDE } else { MIXED };
    rand_str(rng, a, n)
}

const SEED: [u64; 2] = [0x243f_6a88_85a3_08d3, 0x1319_8a2e_0370_7344];
const SEED3: u64 = 0xa409_3822_299f_31d0;

fn fold(x: u64, y: u64) -> u64 {
    let full = u128::from(x) * u128::from(y);
    full as u64 ^ (full >> 64) as u64
}

/// What the node cache's hasher (rustc-hash 2, 64 bits) makes of at least 16 bytes. Only the
/// evidence needs it: if rowan comes to hash otherwise, the pairs below are just texts.
pub fn fx(bytes: &[u8]) -> u64 {
    let word = |at: usize| u64::from_le_bytes(bytes[at..at + 8].try_into().unwrap());
    let [mut a, mut b] = SEED;
    let mut at = 0;
    while at + 16 < bytes.len() {
        let t = fold(a ^ word(at), SEED3 ^ word(at + 8));
        a = b;
        b = t;
        at += 16;
    }
    let tail = bytes.len() - 16;
    fold(a ^ word(tail), b ^ word(tail + 8)) ^ bytes.len() as u64
}

/// Two texts of 16 bytes whose words, after being mixed with `seeds`, have equal products:
/// one factor halved, the other one doubled.
fn colliding(rng: &mut Rng, seeds: [u64; 2]) -> Option<[String; 2]> {
    let bit = |x: u64, byte: usize, bit: usize| x >> (8 * byte + bit) & 1;
    let mut lo = 0u64;
    let mut hi = 0u64;
    for i in 0..8 {
        let mut a = 0x20 + rng.below(0x5f) as u64;
        // The lowest bit of a byte is shifted into the highest one of the byte before.
        let want = bit(seeds[0], i, 0) ^ if i == 0 { 0 } else { bit(seeds[0], i - 1, 7) };
        a = a & !1 | want;
        lo |= a << (8 * i);
        let mut b = 0x20 + rng.below(0x5f) as u64;
        let want = bit(seeds[1], i, 6) ^ bit(seeds[1], i, 7);
        b = b & !0x40 | want << 6;
        hi |= b << (8 * i);
    }
    let lo2 = seeds[0] ^ (seeds[0] ^ lo) >> 1;
    let hi2 = seeds[1] ^ (seeds[1] ^ hi) << 1;
    let text = |lo: u64, hi: u64| String::from_utf8([lo.to_le_bytes(), hi.to_le_bytes()].concat()).ok();
    Some([text(lo, hi)?, text(lo2, hi2)?])
}

/// Pairs of texts of equal length.
pub fn twins() -> &'static [[Arc<str>; 2]] {
    static ALL: OnceLock<Vec<[Arc<str>; 2]>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut rng = Rng::new(20);
        let mut all: Vec<[Arc<str>; 2]> = Vec::new();
        let mut add = |a: &str, b: &str| {
            assert!(a.len() == b.len() && a != b);
            all.push([a.into(), b.into()]);
        };
        for round in 0..24 {
            // equal hashes: 16 bytes
            let [a, b] = colliding(&mut rng, SEED).expect("texts for the first two seeds");
            assert_eq!(fx(a.as_bytes()), fx(b.as_bytes()));
            add(&a, &b);
            // and 32, behind a common beginning
            loop {
                let head: String = (0..16).map(|_| (b'a' + rng.below(26) as u8) as char).collect();
                let word = |at: usize| u64::from_le_bytes(head.as_bytes()[at..at + 8].try_into().unwrap());
                let state = [SEED[1], fold(SEED[0] ^ word(0), SEED3 ^ word(8))];
                if let Some([a, b]) = colliding(&mut rng, state) {
                    let [a, b] = [head.clone() + &a, head + &b];
                    if fx(a.as_bytes()) == fx(b.as_bytes()) {
                        add(&a, &b);
                        break;
                    }
                }
            }
            // one byte of difference, anywhere
            let n = [1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 31, 33, 40][round % 14];
            let a: String = (0..n).map(|_| (b'a' + rng.below(26) as u8) as char).collect();
            let mut b = a.clone().into_bytes();
            b[rng.below(n)] ^= 0x20;
            add(&a, std::str::from_utf8(&b).unwrap());
            // the same parts in another order
            let [l, r] = ["left half", "righthalf"];
            let x = rng.below(10);
            add(&format!("{l}{x}{r}"), &format!("{r}{x}{l}"));
        }
        all
    })
}
