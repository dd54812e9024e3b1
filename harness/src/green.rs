//! C01 building, C02 node cache, C03 structural values, C04 functional edits.
use std::{
    borrow::{Borrow, Cow},
    collections::HashMap,
    ops::Bound,
    sync::Arc,
};

use rowan::{
    cursor::{SyntaxElement, SyntaxNode},
    Checkpoint, GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, GreenTokenData, NodeCache, NodeOrToken, TextSize,
};

use crate::{
    build::*,
    ck, ckeq,
    nav::{hash_of, ids},
    rng::Rng,
    term::{self, rand_shape, rand_term, Flat, T},
    tree::*,
    util::{Ctx, R},
};

// ------------------------------------------------------------------------------------- C01

/// Everything there is to say about a freshly built tree.
fn check_built(cx: &mut Ctx, g: &GreenNode, t: &Arc<T>, way: &str) -> R {
    cx.checks += 1;
    same_green(g, t).map_err(|e| format!("{} of {}: {}", way, t.show(), e))?;
    if t.len() < 1 << 20 {
        let text = t.text();
        ckeq!(cx, g.to_string(), text, "text of {} built by {}", t.show(), way);
        ckeq!(cx, u32::from(g.text_len()) as usize, text.len(), "text_len of {} built by {}", t.show(), way);
        let root = SyntaxNode::new_root(g.clone());
        ck!(cx, root.text() == text.as_str(), "syntax text of {} built by {}", t.show(), way);
        same_tree(&root, t).map_err(|e| format!("syntax tree of {} built by {}: {}", t.show(), way, e))?;
    }
    Ok(())
}

/// A random, properly paired sequence of builder calls together with the tree it describes.
fn wild(cx: &mut Ctx, rng: &mut Rng, cache: &mut NodeCache) -> R<(GreenNode, Arc<T>, String)> {
    let mut b = if rng.bool() { GreenNodeBuilder::with_cache(cache) } else { GreenNodeBuilder::new() };
    let mut log = String::new();
    // the model: one flat list of finished elements, and the open nodes with their start in it
    let mut done: Vec<Arc<T>> = Vec::new();
    let mut open: Vec<(u16, usize)> = Vec::new();
    let mut cps: Vec<(Checkpoint, usize)> = Vec::new();
    // the texts as neighbouring slices of one string
    let side_by_side = rng.bool();
    let mut source = String::with_capacity(4096);
    let n = rng.range(1, if cx.tiny { 14 } else { 90 });
    let kinds = *rng.pick(&[1u16, 3, 20, 0]);
    let kind = |rng: &mut Rng| {
        if kinds == 0 {
            rng.u64() as u16
        } else {
            rng.below(kinds as usize) as u16
        }
    };
    if rng.bool() {
        cps.push((b.checkpoint(), 0));
    }
    if rng.pct(70) {
        let k = kind(rng);
        b.start_node(sk(k));
        open.push((k, 0));
    }
    for _ in 0..n {
        match rng.below(10) {
            0..=2 => {
                let k = kind(rng);
                let s: String = match rng.below(4) {
                    0 => String::new(),
                    1 => "a".into(),
                    _ => term::rand_text(rng, 5),
                };
                if side_by_side && source.len() + s.len() <= source.capacity() {
                    source.push_str(&s);
                    b.token(sk(k), &source[source.len() - s.len()..]);
                } else {
                    b.token(sk(k), &s);
                }
                log.push('t');
                done.push(Arc::new(T::K(k, s.into())));
            }
            3 | 4 => {
                let k = kind(rng);
                b.start_node(sk(k));
                log.push('(');
                open.push((k, done.len()));
            }
            5 | 6 => {
                if open.len() > 1 || (open.len() == 1 && rng.pct(20)) {
                    let (k, first) = open.pop().unwrap();
                    b.finish_node();
                    log.push(')');
                    let kids = done.split_off(first);
                    done.push(Arc::new(T::N(k, kids)));
                    // a checkpoint inside what has been folded no longer denotes anything
                    cps.retain(|it| it.1 <= first);
                }
            }
            7 => {
                cps.push((b.checkpoint(), done.len()));
                log.push('c');
            }
            _ => {
                let first = open.last().map_or(0, |it| it.1);
                let ok: Vec<(Checkpoint, usize)> = cps.iter().copied().filter(|it| it.1 >= first && it.1 <= done.len()).collect();
                if !ok.is_empty() {
                    let (cp, at) = *rng.pick(&ok);
                    let k = kind(rng);
                    b.start_node_at(cp, sk(k));
                    log.push_str(&format!("@{}(", at));
                    open.push((k, at));
                    cx.count("start_node_at");
                }
            }
        }
    }
    // wrap up: a single node must remain
    if open.first().map_or(true, |it| it.1 != 0) || open.is_empty() {
        while let Some((k, first)) = open.pop() {
            b.finish_node();
            let kids = done.split_off(first);
            done.push(Arc::new(T::N(k, kids)));
            cps.retain(|it| it.1 <= first);
        }
        if done.len() != 1 || !done[0].is_node() {
            match cps.iter().find(|it| it.1 == 0) {
                Some((cp, _)) => {
                    b.start_node_at(*cp, sk(5));
                    b.finish_node();
                    let kids = std::mem::take(&mut done);
                    done.push(Arc::new(T::N(5, kids)));
                }
                None => {
                    // no way to wrap it: discard the builder and describe something simple
                    drop(b);
                    let mut b = GreenNodeBuilder::new();
                    b.start_node(sk(1));
                    b.finish_node();
                    return Ok((b.finish(), Arc::new(T::N(1, vec![])), "discarded".into()));
                }
            }
        }
    } else {
        while let Some((k, first)) = open.pop() {
            b.finish_node();
            let kids = done.split_off(first);
            done.push(Arc::new(T::N(k, kids)));
        }
        if done.len() != 1 {
            return Err("the reference builder is off".into());
        }
    }
    let g = b.finish();
    Ok((g, done.pop().unwrap(), log))
}

pub fn c01(cx: &mut Ctx, rng: &mut Rng) -> R {
    let mut cache = NodeCache::default();
    let mut kept: Vec<(GreenNode, Arc<T>)> = Vec::new();
    for _ in 0..rng.range(1, if cx.tiny { 1 } else { 4 }) {
        let (g, t, way) = if rng.bool() {
            let (g, t, log) = wild(cx, rng, &mut cache)?;
            cx.count("event sequences");
            cx.add("events", log.len() as u64);
            cx.desc(|| format!("calls {} give {}", log, t.show()));
            (g, t, format!("calls {}", log))
        } else {
            let budget = if cx.tiny { 8 } else { *rng.pick(&[10, 40, 120, 400]) };
            let t = rand_shape(rng, budget);
            let (g, way) = build(rng, &t, Some(&mut cache));
            cx.count(way);
            cx.desc(|| format!("{}: {}", way, t.show()));
            (g, t, way.to_string())
        };
        cx.sig(t.sig());
        cx.case_trivial = t.count() < 3 && kept.is_empty();
        cx.add("elements", t.count() as u64);
        check_built(cx, &g, &t, &way)?;
        let direct = node_of(&t);
        ck!(cx, g == direct, "{} built by {} differs from the one built from its children", t.show(), way);
        ck!(cx, direct == g, "{} built by {} differs from the one built from its children", t.show(), way);
        kept.push((g, t));
    }
    for (g, t) in &kept {
        cx.checks += 1;
        same_green(g, t).map_err(|e| format!("{} changed after it was built: {}", t.show(), e))?;
    }
    Ok(())
}

pub fn c01_special(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    let t = match which {
        0 => crate::nav::huge_term(rng, true),
        1 => crate::nav::huge_term(rng, false),
        2 => term::chain(rng, 2000),
        3 => Arc::new(T::N(1, (0..70_000).map(|i| Arc::new(T::K((i % 3) as u16, format!("{}", i % 1000).into()))).collect())),
        4 => {
            // token lengths around every power of two
            let mut kids = Vec::new();
            for p in 0..17 {
                for d in [-1i64, 0, 1] {
                    let n = (1i64 << p) + d;
                    kids.push(Arc::new(T::K(p as u16, "y".repeat(n as usize).into())));
                    kids.push(Arc::new(T::K(p as u16, "é".repeat(n as usize / 2).into())));
                }
            }
            Arc::new(T::N(2, kids))
        }
        _ => {
            // numbers of children around every power of two, and around the cache's limit
            let mut kids = Vec::new();
            for n in (0..10).chain([15, 16, 17, 255, 256, 257, 1023, 1024, 1025]) {
                kids.push(Arc::new(T::N(n as u16, vec![Arc::new(T::K(1, "a".into())); n])));
            }
            Arc::new(T::N(2, kids))
        }
    };
    cx.sig(t.sig());
    cx.count("special shapes");
    cx.desc(|| format!("special shape {}: {} elements, {} bytes", which, t.count(), t.len()));
    if which < 2 {
        let g = hashcons(&t, &mut HashMap::new(), &mut HashMap::new()).into_node().unwrap();
        check_built(cx, &g, &t, "children, shared")?;
        let mut b = GreenNodeBuilder::new();
        // start_node/token/finish_node only: the big token is looked up in the cache each time
        if t.count() < 40 {
            emit(&t, &mut b);
            check_built(cx, &b.finish(), &t, "builder")?;
        }
        return Ok(());
    }
    let mut b = GreenNodeBuilder::new();
    emit(&t, &mut b);
    let g = b.finish();
    check_built(cx, &g, &t, "builder")?;
    let mut b = GreenNodeBuilder::new();
    emit_cp(rng, &t, &mut b, None, 50);
    check_built(cx, &b.finish(), &t, "checkpoints")?;
    let d = node_of(&t);
    check_built(cx, &d, &t, "children")?;
    ck!(cx, d == g, "special shape {} built from its children differs", which);
    Ok(())
}

// ------------------------------------------------------------------------------------- C02

/// Is every node at or below `t` small enough to be shared?
fn sharable(t: &T, memo: &mut HashMap<*const T, bool>) -> bool {
    let T::N(k, kids) = t else { return true };
    if let Some(it) = memo.get(&(t as *const T)) {
        return *it;
    }
    let r = kids.len() <= 3 && !(kids.is_empty() && *k == 0) && kids.iter().all(|it| sharable(it, memo));
    memo.insert(t, r);
    r
}

struct Shared {
    tokens: HashMap<(u16, Arc<str>), usize>,
    nodes: HashMap<Arc<T>, usize>,
}

fn check_sharing(cx: &mut Ctx, g: &GreenNodeData, t: &Arc<T>, sh: &mut Shared, memo: &mut HashMap<*const T, bool>) -> R {
    if sharable(t, memo) && t.count() <= 60 {
        let p = ptr_of(g);
        let want = *sh.nodes.entry(t.clone()).or_insert(p);
        ck!(cx, want == p, "equal nodes {} built through one cache are different allocations", t.show());
        cx.count("node sharing checks");
    }
    for (c, t) in g.children().zip(t.kids()) {
        match (c, &**t) {
            (NodeOrToken::Node(c), T::N(..)) => check_sharing(cx, c, t, sh, memo)?,
            (NodeOrToken::Token(c), T::K(k, s)) => {
                let p = c as *const GreenTokenData as *const () as usize;
                let want = *sh.tokens.entry((*k, s.clone())).or_insert(p);
                ck!(cx, want == p, "equal tokens {} {:?} built through one cache are different allocations", k, crate::util::clip(s, 60));
                cx.count("token sharing checks");
            }
            _ => return Err("node and token confused".into()),
        }
    }
    Ok(())
}

fn small_fan(rng: &mut Rng, budget: usize) -> Arc<T> {
    let mut cfg = term::Cfg::random(rng, budget);
    cfg.max_kids = *rng.pick(&[2, 3, 4]);
    cfg.p_dup = *rng.pick(&[0, 30, 60]);
    if rng.bool() {
        cfg.kinds = vec![1, 2];
        cfg.uniq_kinds = false;
        cfg.text = *rng.pick(&[term::Text::Few, term::Text::Unique, term::Text::Twins]);
    }
    term::Gen::new(rng, cfg).root()
}

pub fn c02_run(cx: &mut Ctx, rng: &mut Rng, trees: &[Arc<T>]) -> R {
    let mut cache = NodeCache::default();
    let mut sh = Shared { tokens: HashMap::new(), nodes: HashMap::new() };
    // keeps pointers comparable: nothing that was built may be freed and its address reused
    let mut kept: Vec<(GreenNode, Arc<T>)> = Vec::new();
    for t in trees {
        cx.sig(t.sig());
        let mut b = GreenNodeBuilder::with_cache(&mut cache);
        if rng.bool() {
            emit(t, &mut b);
        } else {
            emit_cp(rng, t, &mut b, None, 40);
        }
        let g = b.finish();
        cx.checks += 1;
        same_green(&g, t).map_err(|e| format!("{} built through a used cache: {}", t.show(), e))?;
        let direct = node_of(t);
        ck!(cx, direct == g && g == direct, "{} built through a used cache differs", t.show());
        ck!(cx, hash_of(&direct) == hash_of(&g), "{} built through a used cache hashes differently", t.show());
        let mut memo = HashMap::new();
        check_sharing(cx, &g, t, &mut sh, &mut memo)?;
        kept.push((g, t.clone()));
        if rng.pct(10) {
            // abandoned half way
            let mut b = GreenNodeBuilder::with_cache(&mut cache);
            b.start_node(sk(1));
            b.token(sk(2), "abandoned");
            b.start_node(sk(1));
        }
        let i = rng.below(kept.len());
        cx.checks += 1;
        same_green(&kept[i].0, &kept[i].1).map_err(|e| format!("{} changed later: {}", kept[i].1.show(), e))?;
    }
    cx.add("cache entries", (sh.tokens.len() + sh.nodes.len()) as u64);
    for (g, t) in &kept {
        cx.checks += 1;
        same_green(g, t).map_err(|e| format!("{} changed later: {}", t.show(), e))?;
        let mut memo = HashMap::new();
        check_sharing(cx, g, t, &mut sh, &mut memo)?;
    }
    Ok(())
}

pub fn c02(cx: &mut Ctx, rng: &mut Rng) -> R {
    let mut trees = Vec::new();
    let n = if cx.tiny { 2 } else { rng.range(2, 14) };
    for _ in 0..n {
        let budget = if cx.tiny { 8 } else { *rng.pick(&[6, 20, 60, 200]) };
        let t = match rng.below(6) {
            0 => rand_shape(rng, budget),
            1 if !trees.is_empty() => Arc::clone(rng.pick::<Arc<T>>(&trees)),
            2 if !trees.is_empty() => {
                let t: Arc<T> = Arc::clone(rng.pick(&trees));
                mutate(rng, &t).0
            }
            _ => small_fan(rng, budget),
        };
        trees.push(t);
    }
    cx.desc(|| format!("{} trees through one cache, the first {}", trees.len(), trees[0].show()));
    c02_run(cx, rng, &trees)
}

/// Caches that have grown: thousands of tokens and nodes of the same lengths and kinds.
pub fn c02_special(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    let n = if cx.thorough { 20_000 } else { 6_000 };
    let mut trees = Vec::new();
    let mk = |i: usize| -> Arc<T> {
        match which {
            // same kind and length
            0 => Arc::new(T::N(1, vec![Arc::new(T::K(1, format!("{:06}", i).into()))])),
            // same text, different kinds
            1 => Arc::new(T::N((i % 60_000) as u16 + 1, vec![Arc::new(T::K((i * 7 % 65_536) as u16, "x".into()))])),
            // trees over few leaves
            2 => {
                let l = |b: usize| Arc::new(T::K(1, if b & 1 == 1 { "a".into() } else { "b".into() }));
                let mut kids = vec![];
                for j in 0..5 {
                    let b = i >> (3 * j);
                    kids.push(Arc::new(T::N(2, vec![l(b), l(b >> 1), l(b >> 2)])));
                }
                Arc::new(T::N(3, vec![Arc::new(T::N(4, kids[..3].to_vec())), Arc::new(T::N(4, kids[3..].to_vec()))]))
            }
            // tokens and nodes that share all of their hashes with another one
            3 => {
                let all = term::twins();
                let mut b = i;
                let l = |b: usize| Arc::new(T::K(1, all[b / 2 % all.len()][b & 1].clone()));
                let mut t = Arc::new(T::N(2, vec![l(b)]));
                for _ in 0..3 {
                    b = b / 2 + 1;
                    t = Arc::new(T::N(2, vec![l(i), t, l(b)]));
                }
                t
            }
            // order and number of equal children
            _ => {
                let a = Arc::new(T::K(1, "a".into()));
                let e = Arc::new(T::N(2, vec![]));
                let mut t = Arc::new(T::N(3, vec![a.clone()]));
                let mut b = i;
                for _ in 0..13 {
                    t = Arc::new(T::N(
                        3,
                        match b & 1 {
                            0 => vec![t, e.clone()],
                            _ => vec![e.clone(), t],
                        },
                    ));
                    b >>= 1;
                }
                t
            }
        }
    };
    for round in 0..2 {
        let mut kids: Vec<Arc<T>> = (0..n).map(mk).collect();
        if round == 1 {
            rng.shuffle(&mut kids);
        }
        for c in kids.chunks(500) {
            trees.push(Arc::new(T::N(9, c.to_vec())));
        }
    }
    cx.count("grown caches");
    if which == 3 {
        let equal = |it: &&[Arc<str>; 2]| it[0].len() >= 16 && term::fx(it[0].as_bytes()) == term::fx(it[1].as_bytes());
        cx.add("pairs of texts with equal hashes", term::twins().iter().filter(equal).count() as u64);
    }
    cx.desc(|| format!("grown cache {}: {} elements", which, n));
    c02_run(cx, rng, &trees)
}

// ------------------------------------------------------------------------------------- C03

/// Changes `t` in one place, perhaps in a way that does not matter.
pub fn mutate(rng: &mut Rng, t: &Arc<T>) -> (Arc<T>, &'static str) {
    let f = Flat::new(t);
    let id = rng.below(f.n());
    let mut what = "nothing";
    let choice = rng.below(12);
    let new = edit_at(t, &f.path(id), &mut |e: &Arc<T>| {
        let e: &T = e;
        match (choice, e) {
            (0, T::N(k, kids)) => {
                what = "node kind";
                T::N(k.wrapping_add(1), kids.clone())
            }
            (0, T::K(k, s)) => {
                what = "token kind";
                T::K(k.wrapping_add(256), s.clone())
            }
            (1, T::K(k, s)) => {
                what = "text appended";
                T::K(*k, format!("{}x", s).into())
            }
            (2, T::K(k, s)) => {
                what = "last char";
                let mut s = s.to_string();
                if s.pop().is_some() {
                    s.push('~');
                }
                T::K(*k, s.into())
            }
            (3, T::N(k, kids)) if kids.len() > 1 => {
                what = "children swapped";
                let mut kids = kids.clone();
                let i = rng.below(kids.len() - 1);
                kids.swap(i, i + 1);
                T::N(*k, kids)
            }
            (4, T::N(k, kids)) => {
                what = "wrapped";
                T::N(*k, vec![Arc::new(T::N(*k, kids.clone()))])
            }
            (5, T::N(k, kids)) if !kids.is_empty() => {
                what = "child dropped";
                let mut kids = kids.clone();
                kids.remove(rng.below(kids.len()));
                T::N(*k, kids)
            }
            (6, T::N(k, kids)) => {
                what = "empty token added";
                let mut kids = kids.clone();
                kids.insert(rng.below(kids.len() + 1), Arc::new(T::K(1, "".into())));
                T::N(*k, kids)
            }
            (7, T::N(k, kids)) => {
                what = "empty node added";
                let mut kids = kids.clone();
                kids.insert(rng.below(kids.len() + 1), Arc::new(T::N(1, vec![])));
                T::N(*k, kids)
            }
            (8, T::N(k, kids)) if kids.windows(2).any(|w| !w[0].is_node() && !w[1].is_node()) => {
                what = "boundary moved";
                let i = kids.windows(2).position(|w| !w[0].is_node() && !w[1].is_node()).unwrap();
                let all = format!("{}{}", kids[i].text(), kids[i + 1].text());
                let mut at = rng.below(all.len() + 1);
                while !all.is_char_boundary(at) {
                    at -= 1;
                }
                let mut kids = kids.clone();
                kids[i] = Arc::new(T::K(kids[i].kind(), all[..at].into()));
                kids[i + 1] = Arc::new(T::K(kids[i + 1].kind(), all[at..].into()));
                T::N(*k, kids)
            }
            (9, T::K(k, s)) => {
                what = "token into node";
                T::N(*k, vec![Arc::new(T::K(*k, s.clone()))])
            }
            (10, T::K(k, s)) if s.len() > 1 => {
                what = "byte swapped";
                let mut cs: Vec<char> = s.chars().collect();
                let n = cs.len();
                if n > 1 {
                    cs.swap(n - 1, n - 2);
                }
                T::K(*k, cs.into_iter().collect::<String>().into())
            }
            (11, T::N(k, kids)) if !kids.is_empty() => {
                what = "child repeated";
                let mut kids = kids.clone();
                let i = rng.below(kids.len());
                let c = kids[i].clone();
                kids.insert(i, c);
                T::N(*k, kids)
            }
            _ => e.clone(),
        }
    });
    (new, what)
}

pub fn edit_at(t: &Arc<T>, path: &[usize], f: &mut dyn FnMut(&Arc<T>) -> T) -> Arc<T> {
    match path {
        [] => Arc::new(f(t)),
        [i, rest @ ..] => {
            let T::N(k, kids) = &**t else { unreachable!() };
            let mut kids = kids.clone();
            kids[*i] = edit_at(&kids[*i], rest, f);
            Arc::new(T::N(*k, kids))
        }
    }
}

fn check_values(cx: &mut Ctx, a: &GreenNode, b: &GreenNode, same: bool, what: &str, t: &T) -> R {
    let d = |s: &str| format!("{} ({}) with {}", s, what, t.show());
    ckeq!(cx, a == b, same, "{}", d("GreenNode equality"));
    ckeq!(cx, b == a, same, "{}", d("GreenNode equality, swapped"));
    ckeq!(cx, a != b, !same, "{}", d("GreenNode inequality"));
    let (da, db): (&GreenNodeData, &GreenNodeData) = (a, b);
    ckeq!(cx, da == db, same, "{}", d("GreenNodeData equality"));
    let (ea, eb): (GreenEl, GreenEl) = (a.clone().into(), b.clone().into());
    ckeq!(cx, ea == eb, same, "{}", d("element equality"));
    if same {
        ck!(cx, hash_of(a) == hash_of(b), "{}", d("hash of equal green nodes"));
        ck!(cx, hash_of(&ea) == hash_of(&eb), "{}", d("hash of equal green elements"));
        let mut m = std::collections::HashSet::new();
        m.insert(a.clone());
        ck!(cx, m.contains(b), "{}", d("hash set lookup"));
    }
    Ok(())
}

fn check_copies(cx: &mut Ctx, g: &GreenNode, t: &T) -> R {
    let d: &GreenNodeData = g;
    let owned = d.to_owned();
    let borrowed: &GreenNodeData = g.borrow();
    let cow: GreenNode = Cow::Borrowed(d).into();
    let cow2: GreenNode = Cow::<GreenNodeData>::Owned(g.clone()).into();
    let cow3 = Cow::Borrowed(borrowed).into_owned();
    for (what, x) in [("to_owned", &owned), ("Cow::Borrowed", &cow), ("Cow::Owned", &cow2), ("into_owned", &cow3), ("clone", &g.clone())] {
        ckeq!(cx, x, g, "{} of {}", what, t.show());
        ckeq!(cx, hash_of(x), hash_of(g), "hash of {} of {}", what, t.show());
        cx.checks += 1;
        same_green(x, t).map_err(|e| format!("{}: {}", what, e))?;
    }
    for x in [GreenEl::from(Cow::Borrowed(d)), GreenEl::from(Cow::<GreenNodeData>::Owned(g.clone())), GreenEl::from(g.clone())] {
        ck!(cx, x.as_node() == Some(g) && x.as_token().is_none(), "{} as an element", t.show());
        ck!(cx, x.clone().into_token().is_none() && x.clone().into_node().as_ref() == Some(g), "{} as an element", t.show());
        ck!(cx, hash_of(&x) == hash_of(&GreenEl::Node(g.clone())), "hash of {} as an element", t.show());
    }
    let r: NodeOrToken<&GreenNodeData, &GreenTokenData> = g.into();
    ck!(cx, matches!(r, NodeOrToken::Node(it) if std::ptr::eq(it, d)), "{} as a borrowed element", t.show());
    ckeq!(cx, g.kind().0, t.kind(), "kind of {}", t.show());
    for (c, t) in g.children().zip(t.kids()) {
        ckeq!(cx, c.kind().0, t.kind(), "kind through the reference in {}", t.show());
        ckeq!(cx, u32::from(c.text_len()) as u64, t.len(), "length through the reference in {}", t.show());
        let o: GreenEl = c.to_owned();
        ckeq!(cx, o.kind().0, t.kind(), "kind of an owned child");
        ckeq!(cx, u32::from(o.text_len()) as u64, t.len(), "length of an owned child");
        match (&o, &**t) {
            (NodeOrToken::Node(o), T::N(..)) => {
                cx.checks += 1;
                same_green(o, t)?;
            }
            (NodeOrToken::Token(o), T::K(k, s)) => {
                ckeq!(cx, (o.kind().0, o.text()), (*k, &**s), "an owned token");
                let again = o.clone();
                ck!(cx, again == *o && hash_of(&again) == hash_of(o), "a cloned token differs");
                let od: &GreenTokenData = o;
                let r: NodeOrToken<&GreenNodeData, &GreenTokenData> = o.into();
                ck!(cx, matches!(r, NodeOrToken::Token(it) if std::ptr::eq(it, od)), "a token as a borrowed element");
                let e: GreenEl = o.clone().into();
                ck!(cx, e.as_token() == Some(o) && e.as_node().is_none() && e.clone().into_node().is_none(), "a token as an element");
                let b: &GreenTokenData = o.borrow();
                ck!(cx, std::ptr::eq(b, od), "a token borrowed");
                let text = format!("{:?}", s);
                ck!(cx, format!("{:?}", o).contains(&text) && format!("{:?}", od).contains(&text), "debug form of a token: {:?}", o);
                ck!(cx, o.to_string() == **s && od.to_string() == **s, "display form of a token: {:?}", o);
                let oo = od.to_owned();
                ck!(cx, oo == *o && hash_of(&oo) == hash_of(o), "a token turned owned differs");
                let fresh = GreenToken::new(sk(*k), s);
                ck!(cx, fresh == *o && hash_of(&fresh) == hash_of(o), "a token made anew differs");
                let fd: &GreenTokenData = &fresh;
                ck!(cx, fd == od, "token data differs");
                let other = GreenToken::new(sk(k.wrapping_add(1)), s);
                ck!(cx, other != *o, "tokens of different kind are equal");
                let data: &GreenTokenData = &other;
                ck!(cx, data != od && od != data, "token data of different kind is equal");
                let other = GreenToken::new(sk(*k), &format!("{}!", s));
                ck!(cx, other != *o, "tokens of different text are equal");
                let data: &GreenTokenData = &other;
                ck!(cx, data != od && od != data, "token data of different text is equal");
                ckeq!(cx, o.text_len(), TextSize::of(&**s), "length of a token");
            }
            _ => return Err("node and token confused".into()),
        }
    }
    Ok(())
}

type ChildId = (bool, usize);

fn cid(c: NodeOrToken<&GreenNodeData, &GreenTokenData>) -> ChildId {
    match c {
        NodeOrToken::Node(it) => (true, ptr_of(it)),
        NodeOrToken::Token(it) => (false, it as *const GreenTokenData as *const () as usize),
    }
}

/// Drives the double-ended child iterator against a plain slice.
fn check_children(cx: &mut Ctx, rng: &mut Rng, g: &GreenNodeData) -> R {
    let all: Vec<ChildId> = {
        let mut v = Vec::new();
        let mut it = g.children();
        while let Some(c) = it.next() {
            v.push(cid(c));
        }
        v
    };
    let mut it = g.children();
    let (mut lo, mut hi) = (0usize, all.len());
    let mut log = String::new();
    for _ in 0..rng.range(1, 12) {
        let left = &all[lo..hi];
        ckeq!(cx, it.len(), left.len(), "len after {} of {} children", log, all.len());
        ckeq!(cx, it.size_hint(), (left.len(), Some(left.len())), "size_hint after {}", log);
        match rng.below(12) {
            0 | 1 => {
                log.push_str("next ");
                ckeq!(cx, it.next().map(cid), left.first().copied(), "{} of {} children", log, all.len());
                lo = (lo + 1).min(hi);
            }
            2 | 3 => {
                log.push_str("next_back ");
                ckeq!(cx, it.next_back().map(cid), left.last().copied(), "{} of {} children", log, all.len());
                hi = hi.saturating_sub(1).max(lo);
            }
            4 => {
                let n = rng.below(4);
                log.push_str(&format!("nth({}) ", n));
                ckeq!(cx, it.nth(n).map(cid), left.get(n).copied(), "{} of {} children", log, all.len());
                lo = (lo + n + 1).min(hi);
            }
            5 => {
                let n = rng.below(4);
                log.push_str(&format!("nth_back({}) ", n));
                let want = left.iter().rev().nth(n).copied();
                ckeq!(cx, it.nth_back(n).map(cid), want, "{} of {} children", log, all.len());
                hi = hi.saturating_sub(n + 1).max(lo);
            }
            6 => {
                let got: Vec<ChildId> = it.clone().map(cid).collect();
                ckeq!(cx, got, left, "clone after {}", log);
            }
            7 => {
                let got: Vec<ChildId> = it.clone().rev().map(cid).collect();
                let mut want = left.to_vec();
                want.reverse();
                ckeq!(cx, got, want, "rev after {}", log);
                let got = it.clone().rfold(Vec::new(), |mut v, c| {
                    v.push(cid(c));
                    v
                });
                ckeq!(cx, got, want, "rfold after {}", log);
            }
            8 => {
                ckeq!(cx, it.clone().count(), left.len(), "count after {}", log);
                ckeq!(cx, it.clone().last().map(cid), left.last().copied(), "last after {}", log);
                let got = it.clone().fold(Vec::new(), |mut v, c| {
                    v.push(cid(c));
                    v
                });
                ckeq!(cx, got, left, "fold after {}", log);
            }
            9 => {
                let k = rng.below(3) + 1;
                let got: Vec<ChildId> = it.clone().step_by(k).map(cid).collect();
                let want: Vec<ChildId> = left.iter().copied().step_by(k).collect();
                ckeq!(cx, got, want, "step_by({}) after {}", k, log);
                let got: Vec<ChildId> = it.clone().skip(k).take(2).map(cid).collect();
                let want: Vec<ChildId> = left.iter().copied().skip(k).take(2).collect();
                ckeq!(cx, got, want, "skip/take after {}", log);
            }
            10 => {
                // searching from either end consumes up to the hit
                let bit = rng.below(2) == 1;
                log.push_str("find ");
                let got = it.find(|c| c.as_node().is_some() == bit).map(cid);
                let pos = left.iter().position(|it| it.0 == bit);
                ckeq!(cx, got, pos.map(|p| left[p]), "{}", log);
                lo = pos.map_or(hi, |p| lo + p + 1);
            }
            _ => {
                let bit = rng.below(2) == 1;
                log.push_str("rfind ");
                let got = it.rfind(|c| c.as_node().is_some() == bit).map(cid);
                let pos = left.iter().rposition(|it| it.0 == bit);
                ckeq!(cx, got, pos.map(|p| left[p]), "{}", log);
                hi = pos.map_or(lo, |p| lo + p);
            }
        }
    }
    cx.count("child iterator runs");
    Ok(())
}

pub fn c03(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = if cx.tiny { 8 } else { *rng.pick(&[6, 20, 60]) };
    let t = rand_shape(rng, budget);
    cx.sig(t.sig());
    cx.case_trivial = t.count() < 3;
    let mut cache = NodeCache::default();
    let (a, wa) = build(rng, &t, Some(&mut cache));
    let (b, wb) = build(rng, &t, Some(&mut cache));
    cx.desc(|| format!("{} / {}: {}", wa, wb, t.show()));
    check_values(cx, &a, &b, true, &format!("{} / {}", wa, wb), &t)?;
    check_copies(cx, &a, &t)?;
    let f = Flat::new(&t);
    for _ in 0..if cx.tiny { 2 } else { 8 } {
        let (t2, what) = mutate(rng, &t);
        let (c, _) = build(rng, &t2, Some(&mut cache));
        let same = t2 == t;
        cx.count(if same { "equal pairs" } else { "different pairs" });
        check_values(cx, &a, &c, same, what, &t)?;
        // elements inside
        let id = rng.below(f.n());
        let f2 = Flat::new(&t2);
        let id2 = rng.below(f2.n());
        let (x, y) = (f.term(id), f2.term(id2));
        let (gx, gy) = (bottom_up(&x), bottom_up(&y));
        ckeq!(cx, gx == gy, x == y, "equality of the parts {} and {}", x.show(), y.show());
        if x == y {
            ck!(cx, hash_of(&gx) == hash_of(&gy), "hash of the equal parts {}", x.show());
        }
        let borrowed = match (&gx, &gy) {
            (NodeOrToken::Node(gx), NodeOrToken::Node(gy)) => {
                let (gx, gy): (&GreenNodeData, &GreenNodeData) = (gx, gy);
                gx == gy
            }
            (NodeOrToken::Token(gx), NodeOrToken::Token(gy)) => {
                let (gx, gy): (&GreenTokenData, &GreenTokenData) = (gx, gy);
                gx == gy
            }
            _ => false,
        };
        ckeq!(cx, borrowed, x == y, "equality of the borrowed parts {} and {}", x.show(), y.show());
    }
    check_children(cx, rng, &a)?;
    for c in a.children() {
        if let NodeOrToken::Node(c) = c {
            check_children(cx, rng, c)?;
        }
    }
    // same value seen through syntax trees
    let r1 = SyntaxNode::new_root(a.clone());
    let r2 = SyntaxNode::new_root_mut(b.clone());
    let (g1, g2): (GreenNode, GreenNode) = (r1.green().into_owned(), r2.green().into_owned());
    ck!(cx, g1 == g2 && g1 == a, "green() of trees over {}", t.show());
    let owned = r2.green();
    ck!(cx, *owned == *a, "green() of a mutable tree over {}", t.show());
    // where it was built does not matter: another thread
    if rng.pct(2) && !cx.tiny {
        let t2 = t.clone();
        let c = std::thread::Builder::new().stack_size(64 << 20).spawn(move || node_of(&t2)).unwrap().join().unwrap();
        check_values(cx, &a, &c, true, "built in another thread", &t)?;
        cx.count("built in another thread");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C04

fn green_el(rng: &mut Rng, t: &Arc<T>) -> GreenEl {
    match &**t {
        T::N(..) => build(rng, t, None).0.into(),
        T::K(k, s) => GreenToken::new(sk(*k), s).into(),
    }
}

fn ptrs(g: &GreenNodeData) -> Vec<ChildId> {
    g.children().map(cid).collect()
}

fn el_id(e: &GreenEl) -> ChildId {
    match e {
        NodeOrToken::Node(it) => (true, ptr_of(it)),
        NodeOrToken::Token(it) => {
            let it: &GreenTokenData = it;
            (false, it as *const GreenTokenData as *const () as usize)
        }
    }
}

fn rand_el(rng: &mut Rng) -> Arc<T> {
    if rng.bool() {
        rand_term(rng, 5)
    } else {
        Arc::new(T::K(rng.below(5) as u16, rng.pick(&["", "n", "né", "new"]).to_string().into()))
    }
}

pub fn check_edit(cx: &mut Ctx, rng: &mut Rng, g: &GreenNode, t: &Arc<T>) -> R {
    let before = ptrs(g);
    let n = before.len();
    let T::N(k, kids) = &**t else { unreachable!() };
    let (got, want_t, want_p, what): (GreenNode, Arc<T>, Vec<ChildId>, String) = match rng.below(4) {
        0 if n > 0 => {
            let i = rng.below(n);
            let x = rand_el(rng);
            let gx = green_el(rng, &x);
            let mut wk = kids.clone();
            let mut wp = before.clone();
            wk[i] = x;
            wp[i] = el_id(&gx);
            (g.replace_child(i, gx), Arc::new(T::N(*k, wk)), wp, format!("replace_child({})", i))
        }
        1 => {
            let i = rng.below(n + 1);
            let x = rand_el(rng);
            let gx = green_el(rng, &x);
            let mut wk = kids.clone();
            let mut wp = before.clone();
            wk.insert(i, x);
            wp.insert(i, el_id(&gx));
            (g.insert_child(i, gx), Arc::new(T::N(*k, wk)), wp, format!("insert_child({})", i))
        }
        2 if n > 0 => {
            let i = rng.below(n);
            let mut wk = kids.clone();
            let mut wp = before.clone();
            wk.remove(i);
            wp.remove(i);
            (g.remove_child(i), Arc::new(T::N(*k, wk)), wp, format!("remove_child({})", i))
        }
        _ => {
            let a = rng.below(n + 1);
            let b = rng.range(a, n);
            let mut xs = Vec::new();
            let mut gx: Vec<GreenEl> = Vec::new();
            for _ in 0..rng.below(4) {
                if n > 0 && rng.pct(30) {
                    // one of its own children again
                    let i = rng.below(n);
                    xs.push(kids[i].clone());
                    gx.push(g.children().nth(i).unwrap().to_owned());
                } else {
                    let x = rand_el(rng);
                    gx.push(green_el(rng, &x));
                    xs.push(x);
                }
            }
            let mut wk = kids.clone();
            let mut wp = before.clone();
            let form = rng.below(7);
            let (lo, hi) = match form {
                0 => (a, b),
                1 if b > a => (a, b),
                2 => (0, n),
                3 => (0, b),
                4 => (a, n),
                5 if b > 0 => (0, b),
                6 if a > 0 => (a, b),
                _ => (a, b),
            };
            wk.splice(lo..hi, xs.clone());
            wp.splice(lo..hi, gx.iter().map(el_id));
            let r = match form {
                0 => g.splice_children(a..b, gx),
                1 if b > a => g.splice_children(a..=b - 1, gx),
                2 => g.splice_children(.., gx),
                3 => g.splice_children(..b, gx),
                4 => g.splice_children(a.., gx),
                5 if b > 0 => g.splice_children(..=b - 1, gx),
                6 if a > 0 => g.splice_children((Bound::Excluded(a - 1), Bound::Excluded(b)), gx),
                // an iterator without an exact size
                _ => g.splice_children(a..b, gx.into_iter().filter(|_| true)),
            };
            (r, Arc::new(T::N(*k, wk)), wp, format!("splice_children({}..{}, {} new)", lo, hi, xs.len()))
        }
    };
    cx.count(what.split('(').next().unwrap());
    cx.checks += 2;
    same_green(&got, &want_t).map_err(|e| format!("{} of {}: {}", what, t.show(), e))?;
    same_green(g, t).map_err(|e| format!("{} changed the original {}: {}", what, t.show(), e))?;
    ckeq!(cx, ptrs(g), before, "children of the original after {} of {}", what, t.show());
    ckeq!(cx, ptrs(&got), want_p, "children are not shared by {} of {}", what, t.show());
    Ok(())
}

/// All children pointers of the whole tree, in order, with their paths.
fn all_ptrs(g: &GreenNodeData, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, ChildId)>) {
    for (i, c) in g.children().enumerate() {
        path.push(i);
        out.push((path.clone(), cid(c)));
        if let NodeOrToken::Node(c) = c {
            all_ptrs(c, path, out);
        }
        path.pop();
    }
}

pub fn c04(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = if cx.tiny { 8 } else { *rng.pick(&[8, 25, 60]) };
    let t = rand_shape(rng, budget);
    cx.sig(t.sig());
    cx.case_trivial = t.count() < 3;
    let mut cache = NodeCache::default();
    let (g, way) = build(rng, &t, Some(&mut cache));
    cx.desc(|| format!("{}: {}", way, t.show()));
    for _ in 0..if cx.tiny { 3 } else { 8 } {
        check_edit(cx, rng, &g, &t)?;
    }
    // a chain of edits
    let mut cur = g.clone();
    for _ in 0..if cx.tiny { 2 } else { 6 } {
        let tt = term_of(&cur);
        check_edit(cx, rng, &cur, &tt)?;
        cur = cur.insert_child(0, GreenToken::new(sk(1), "c").into());
    }
    // through syntax handles
    let tree = make_tree(rng, &t, Pick::Any, Some(&mut cache))?;
    let f = &tree.flat;
    let whole: GreenNode = tree.root.green().into_owned();
    let mut before = Vec::new();
    all_ptrs(&whole, &mut Vec::new(), &mut before);
    let handles: Vec<(usize, SyntaxElement)> = ids(rng, f, 10).into_iter().map(|id| tree.at(id).map(|e| (id, e))).collect::<R<_>>()?;
    for id in ids(rng, f, if cx.tiny { 4 } else { 14 }) {
        let e = tree.reach(rng, id)?;
        let (new_t, got, new_id): (Arc<T>, GreenNode, ChildId) = match &e {
            NodeOrToken::Node(n) => {
                let base = if rng.pct(20) { f.term(id) } else { rand_term(rng, 8) };
                let x = Arc::new(T::N(f.kind[id], base.kids().to_vec()));
                let gx = build(rng, &x, None).0;
                let p = (true, ptr_of(&gx));
                (x, n.replace_with(gx), p)
            }
            NodeOrToken::Token(tk) => {
                let x = Arc::new(T::K(f.kind[id], term::rand_text(rng, 5).into()));
                let T::K(k, s) = &*x else { unreachable!() };
                let gx = GreenToken::new(sk(*k), s);
                let p = el_id(&gx.clone().into());
                (x, tk.replace_with(gx), p)
            }
        };
        cx.count("replace_with");
        let path = f.path(id);
        let want = edit_at(&t, &path, &mut |_| (*new_t).clone());
        cx.checks += 2;
        same_green(&got, &want).map_err(|e| format!("replace_with of element {} of {} by {}: {}", id, t.show(), new_t.show(), e))?;
        same_tree(&tree.root, &t).map_err(|e| format!("replace_with of element {} changed the original {}: {}", id, t.show(), e))?;
        // everything off the path is shared
        let mut after = Vec::new();
        all_ptrs(&got, &mut Vec::new(), &mut after);
        let after: HashMap<&[usize], ChildId> = after.iter().map(|it| (&it.0[..], it.1)).collect();
        for (p, c) in &before {
            let on_path = path.starts_with(p) || p.starts_with(&path);
            if !on_path {
                ckeq!(cx, after.get(&p[..]), Some(c), "element at {:?} is not shared after replacing {:?} in {}", p, path, t.show());
            }
        }
        if path.is_empty() {
            ckeq!(cx, (true, ptr_of(&got)), new_id, "replacing the root of {}", t.show());
        } else {
            ckeq!(cx, after.get(&path[..]).copied(), Some(new_id), "the replacement was copied in {}", t.show());
        }
        for (x, h) in &handles {
            ckeq!(cx, tree.locate(h)?, *x, "a handle after replace_with in {}", t.show());
            ckeq!(cx, h.text_range(), rng_of(f, *x), "range of a handle after replace_with in {}", t.show());
        }
        let again: GreenNode = tree.root.green().into_owned();
        ckeq!(cx, ptr_of(&again), ptr_of(&whole), "the original's green tree was replaced in {}", t.show());
    }
    Ok(())
}
