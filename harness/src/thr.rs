//! Threads (C18).
//!
//! The oracles: ThreadSanitizer and Miri (data races), the checking allocator (double and early
//! frees), the contents every thread sees, and the balance of live allocations after the join.
//! Whether something may cross threads is probed separately, so nothing here relies on it.
use std::{
    panic::AssertUnwindSafe,
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed},
        Arc, Mutex,
    },
};

use rowan::{
    ast::{AstPtr, SyntaxNodePtr},
    cursor::{SyntaxElement, SyntaxNode},
    GreenNode, GreenNodeBuilder, GreenToken, NodeCache, NodeOrToken,
};

use crate::{
    build::{bottom_up, build, emit, hashcons, node_of, same_green, sk, GreenEl},
    ck, ckeq,
    rng::{mix, Rng},
    term::{rand_term, Flat, T},
    text::Odd,
    tree::same_tree,
    util::{clip, panic_text, Ctx, R},
};

/// Crosses threads whatever its type says.
pub struct Force<X>(X);
unsafe impl<X> Send for Force<X> {}
unsafe impl<X> Sync for Force<X> {}
impl<X> Force<X> {
    fn get(&self) -> &X {
        &self.0
    }
    fn take(self) -> X {
        self.0
    }
}

/// Which thread did something, in order. Relaxed, so that it orders nothing itself.
struct Log {
    ticket: AtomicUsize,
    who: Vec<AtomicU64>,
}

impl Log {
    fn new() -> Log {
        Log { ticket: AtomicUsize::new(0), who: (0..96).map(|_| AtomicU64::new(0)).collect() }
    }
    fn mark(&self, me: usize, what: u64) {
        let i = self.ticket.fetch_add(1, Relaxed);
        if let Some(it) = self.who.get(i) {
            it.store(mix((me as u64 + 1) * 64 + what), Relaxed);
        }
    }
    fn sig(&self) -> u64 {
        self.who.iter().fold(1, |h, it| mix(h ^ it.load(Relaxed)))
    }
    fn events(&self) -> u64 {
        self.ticket.load(Relaxed) as u64
    }
}

/// Waits until all threads are there, without ordering anything.
fn line_up(gate: &AtomicUsize, n: usize) {
    gate.fetch_add(1, Relaxed);
    while gate.load(Relaxed) < n {
        if cfg!(miri) {
            std::thread::yield_now()
        } else {
            std::hint::spin_loop();
            std::thread::yield_now()
        }
    }
}

fn jitter(rng: &mut Rng) {
    match rng.below(12) {
        0 => std::thread::yield_now(),
        1 if !cfg!(miri) => (0..rng.below(200)).for_each(|_| std::hint::spin_loop()),
        _ => (),
    }
}

/// Runs one closure per thread, reports the first failure.
fn run<'a>(bodies: Vec<Box<dyn FnOnce() -> R + 'a>>) -> R {
    let results: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = bodies
            .into_iter()
            .map(|b| {
                let b = Force(b);
                s.spawn(move || {
                    let b = b.take();
                    match std::panic::catch_unwind(AssertUnwindSafe(b)) {
                        Ok(r) => r,
                        Err(e) => Err(format!("a thread panicked: {}", panic_text(&e))),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread died".into()))).collect()
    });
    results.into_iter().collect()
}

fn live() -> (i64, i64) {
    crate::alloc::live()
}

fn count_threads(cx: &Ctx, rng: &mut Rng) -> usize {
    if cx.tiny {
        rng.range(2, 3)
    } else {
        rng.range(2, 8)
    }
}

fn share(rng: &mut Rng, t: &Arc<T>) -> GreenNode {
    if rng.bool() {
        match hashcons(t, &mut Default::default(), &mut Default::default()) {
            NodeOrToken::Node(n) => n,
            _ => node_of(t),
        }
    } else {
        build(rng, t, None).0
    }
}

pub fn c18(cx: &mut Ctx, rng: &mut Rng) -> R {
    for what in ["threads", "events", "last drops raced", "trees and tokens shared", "things sent", "checks in threads"] {
        cx.add(what, 0);
    }
    let which = rng.below(10);
    let seed = rng.u64();
    let mut delta = (0, 0);
    // A leak has to show twice: the first run may set something up.
    for _ in 0..3 {
        let before = live();
        let mut c = Ctx::new(cx.thorough, cx.tiny);
        let mut rng = Rng::new(seed);
        let r = match which {
            0..=3 => hammer(&mut c, &mut rng),
            4..=7 => mixed(&mut c, &mut rng),
            _ => pipeline(&mut c, &mut rng),
        };
        let (checks, sig) = (c.checks, c.case_sig);
        let counters = std::mem::take(&mut c.counters);
        drop(c);
        for (k, v) in &counters {
            cx.add(k, *v);
        }
        drop(counters);
        let after = live();
        cx.checks += checks;
        cx.case_sig = mix(sig);
        r?;
        delta = (after.0 - before.0, after.1 - before.1);
        if delta == (0, 0) || cfg!(miri) {
            break;
        }
    }
    if !cfg!(any(miri, feature = "plainalloc")) {
        ckeq!(cx, delta, (0, 0), "live allocations and bytes left behind after all threads are done (scenario {})", which);
    }
    Ok(())
}

/// Everybody clones and drops the same few things; who is last is left to chance.
fn hammer(cx: &mut Ctx, rng: &mut Rng) -> R {
    let n = count_threads(cx, rng);
    let rounds = if cx.tiny { 2 } else { *rng.pick(&[5, 20, 60]) };
    let budget = if cx.tiny { 4 } else { *rng.pick(&[1, 4, 12]) };
    let per_round = if cx.tiny { 3 } else { *rng.pick(&[0, 1, 4, 200]) };
    let term = rand_term(rng, budget);
    cx.sig(term.sig());
    cx.desc(|| format!("{} threads clone and drop {} in {} rounds", n, term.show(), rounds));
    let log = Log::new();
    let gate: Vec<AtomicUsize> = (0..rounds).map(|_| AtomicUsize::new(0)).collect();
    let text = term.text();
    let keep_tokens = rng.bool();
    // a fresh value for every round, a clone of it for every thread, none left here
    let mut given: Vec<Vec<(GreenNode, GreenToken)>> = (0..n).map(|_| Vec::with_capacity(rounds)).collect();
    for _ in 0..rounds {
        let g = share(rng, &term);
        let t = GreenToken::new(sk(7), "shared");
        for it in given.iter_mut() {
            it.push((g.clone(), t.clone()));
        }
    }
    let seed = rng.u64();
    let bodies: Vec<Box<dyn FnOnce() -> R>> = given
        .into_iter()
        .enumerate()
        .map(|(me, mine)| {
            let (log, gate, text) = (&log, &gate, &text);
            let b: Box<dyn FnOnce() -> R> = Box::new(move || {
                let mut rng = Rng::new(seed ^ me as u64);
                for (round, (g, t)) in mine.into_iter().enumerate() {
                    line_up(&gate[round], n);
                    let mut more = Vec::new();
                    for _ in 0..rng.below(per_round + 1) {
                        match rng.below(5) {
                            0 | 1 => more.push((g.clone(), t.clone())),
                            2 => drop(more.pop()),
                            3 => {
                                log.mark(me, 1);
                                if g.to_string() != *text {
                                    return Err(format!("a thread sees text {:?} instead of {:?}", clip(&g.to_string(), 200), clip(text, 200)));
                                }
                            }
                            _ => {
                                if t.text() != "shared" {
                                    return Err("a thread sees another token text".into());
                                }
                            }
                        }
                    }
                    jitter(&mut rng);
                    if keep_tokens {
                        let kids: Vec<GreenEl> = g.children().map(|it| it.to_owned()).collect();
                        drop(g);
                        log.mark(me, 2);
                        jitter(&mut rng);
                        drop(kids);
                    } else {
                        drop(g);
                        log.mark(me, 2);
                    }
                    drop(t);
                    log.mark(me, 3);
                    while let Some(it) = more.pop() {
                        drop(it);
                    }
                    log.mark(me, 4);
                }
                Ok(())
            });
            b
        })
        .collect();
    run(bodies)?;
    cx.sig(log.sig());
    cx.add("threads", n as u64);
    cx.add("events", log.events());
    cx.add("last drops raced", 2 * rounds as u64);
    cx.checks += log.events();
    Ok(())
}

/// Everybody does what programs do with a shared tree.
fn mixed(cx: &mut Ctx, rng: &mut Rng) -> R {
    let n = count_threads(cx, rng);
    let k = rng.range(1, 3);
    let budget = if cx.tiny { 5 } else { *rng.pick(&[4, 10, 25, 60]) };
    let terms: Vec<Arc<T>> = (0..k).map(|_| rand_term(rng, budget)).collect();
    let greens: Vec<GreenNode> = terms.iter().map(|t| share(rng, t)).collect();
    let tokens: Vec<GreenToken> = (0..2).map(|i| GreenToken::new(sk(3), ["tok", ""][i])).collect();
    for t in &terms {
        cx.sig(t.sig());
    }
    let flats: Vec<Flat> = terms.iter().map(|t| Flat::new(t)).collect();
    let texts: Vec<String> = terms.iter().map(|t| t.text()).collect();
    let n_ops = if cx.tiny { 4 } else { *rng.pick(&[10, 40, 100]) };
    cx.desc(|| format!("{} threads do {} things each with {}", n, n_ops, terms[0].show()));
    let log = Log::new();
    let gate = AtomicUsize::new(0);
    let seed = rng.u64();
    let checks = AtomicU64::new(0);
    let give = rng.bool();
    let own: Vec<Vec<GreenNode>> = (0..n).map(|_| if give { greens.clone() } else { Vec::new() }).collect();
    // Either everybody borrows, or everybody owns and the last one frees.
    let lent = if give {
        drop(greens);
        Vec::new()
    } else {
        greens
    };
    let bodies: Vec<Box<dyn FnOnce() -> R>> = own
        .into_iter()
        .enumerate()
        .map(|(me, own)| {
            let (terms, flats, texts, log, gate, checks, lent, tokens) = (&terms, &flats, &texts, &log, &gate, &checks, &lent, &tokens);
            let b: Box<dyn FnOnce() -> R> = Box::new(move || {
                let mut rng = Rng::new(seed ^ (me as u64) << 7);
                let mut cx = Ctx::new(false, false);
                let cx = &mut cx;
                line_up(gate, n);
                let mut held: Vec<GreenEl> = Vec::new();
                let mut roots: Vec<SyntaxElement> = Vec::new();
                for _ in 0..n_ops {
                    let i = rng.below(terms.len());
                    let g = if own.is_empty() { &lent[i] } else { &own[i] };
                    let (t, f) = (&*terms[i], &flats[i]);
                    let op = rng.below(14);
                    log.mark(me, op as u64);
                    jitter(&mut rng);
                    match op {
                        0 => held.push(g.clone().into()),
                        1 => {
                            if !held.is_empty() {
                                let i = rng.below(held.len());
                                drop(held.swap_remove(i));
                            }
                        }
                        2 => same_green(g, t)?,
                        3 => ckeq!(cx, &g.to_string(), &texts[i], "text seen by a thread"),
                        4 => {
                            let root = SyntaxNode::new_root(g.clone());
                            same_tree(&root, t)?;
                            if rng.bool() {
                                roots.push(root.into());
                            }
                        }
                        5 => {
                            let root = SyntaxNode::new_root(g.clone());
                            let id = rng.below(f.kind.len());
                            let e = root.descendants_with_tokens().nth(id);
                            drop(root);
                            let Some(e) = e else {
                                return Err("an element is missing in a thread".into());
                            };
                            ckeq!(cx, e.kind().0, f.kind[id], "kind seen by a thread");
                            ckeq!(cx, u32::from(e.text_range().start()) as u64, f.start[id], "offset seen by a thread");
                            let _ = (e.next_sibling_or_token(), e.first_token(), e.ancestors().count());
                            roots.push(e);
                        }
                        6 => {
                            drop(roots.pop());
                        }
                        7 => {
                            // a mutable copy, edited
                            let root = if rng.bool() { SyntaxNode::new_root_mut(g.clone()) } else { SyntaxNode::new_root(g.clone()).clone_for_update() };
                            let kids = t.kids().len();
                            let tok = SyntaxNode::new_root_mut(GreenNode::new(sk(1), vec![tokens[rng.below(2)].clone().into()]));
                            let tok = tok.first_child_or_token().unwrap();
                            let at = rng.below(kids + 1);
                            let gone = root.children_with_tokens().nth(at);
                            root.splice_children(at..(at + 1).min(kids), vec![tok]);
                            ckeq!(cx, root.children_with_tokens().count(), kids + (at == kids) as usize, "children of a copy edited in a thread");
                            if let Some(e) = gone {
                                ck!(cx, e.parent().is_none(), "detached in a thread but still attached");
                                roots.push(e);
                            }
                            held.push(root.green().into_owned().into());
                            same_green(g, t)?;
                        }
                        8 => {
                            let kids = t.kids().len();
                            let at = rng.below(kids + 1);
                            let h = g.insert_child(at, tokens[rng.below(2)].clone().into());
                            ckeq!(cx, h.children().len(), kids + 1, "children of a functional edit in a thread");
                            let back = h.remove_child(at);
                            ck!(cx, back == *g, "undone edit differs in a thread");
                            held.push(h.into());
                        }
                        9 => {
                            let fresh = node_of(t);
                            ck!(cx, fresh == *g, "equal trees compare different in a thread");
                            ckeq!(cx, crate::nav::hash_of(&fresh), crate::nav::hash_of(g), "hash seen by a thread");
                        }
                        10 => {
                            if let Some(c) = g.children().nth(rng.below(t.kids().len() + 1)) {
                                held.push(c.to_owned());
                            }
                        }
                        11 => {
                            let mut cache = NodeCache::default();
                            let mut b = GreenNodeBuilder::with_cache(&mut cache);
                            emit(t, &mut b);
                            ck!(cx, b.finish() == *g, "a tree built in a thread is different");
                        }
                        12 => {
                            let root = SyntaxNode::new_root(g.clone());
                            let tx = root.text();
                            drop(root);
                            ck!(cx, tx == texts[i].as_str(), "text view in a thread");
                            let root = SyntaxNode::new_root(g.clone());
                            held.push(root.replace_with(g.clone()).into());
                        }
                        _ => {
                            let g = tokens[rng.below(2)].clone();
                            ck!(cx, g == tokens[0] || g == tokens[1], "token seen by a thread");
                            held.push(g.into());
                        }
                    }
                    while held.len() > 12 {
                        drop(held.swap_remove(0));
                    }
                    while roots.len() > 12 {
                        drop(roots.swap_remove(0));
                    }
                }
                drop(own);
                log.mark(me, 20);
                drop(roots);
                log.mark(me, 21);
                drop(held);
                log.mark(me, 22);
                checks.fetch_add(cx.checks, Relaxed);
                Ok(())
            });
            b
        })
        .collect();
    run(bodies)?;
    for (g, t) in lent.iter().zip(&terms) {
        same_green(g, t).map_err(|e| format!("after all threads are done: {}", e))?;
    }
    cx.sig(log.sig());
    cx.add("threads", n as u64);
    cx.add("events", log.events());
    cx.add("trees and tokens shared", k as u64 + 2);
    let checks = checks.load(Relaxed);
    cx.add("checks in threads", checks);
    cx.checks += checks;
    Ok(())
}

enum Parcel {
    Green(GreenEl, usize),
    Cache(NodeCache),
    Ptr(SyntaxNodePtr<Odd>, usize, usize),
    AstPtr(AstPtr<crate::misc::AnyOdd>, usize, usize),
}

/// Greens, caches and pointers go round between threads.
fn pipeline(cx: &mut Ctx, rng: &mut Rng) -> R {
    let n = count_threads(cx, rng);
    let budget = if cx.tiny { 5 } else { *rng.pick(&[4, 10, 25]) };
    let terms: Vec<Arc<T>> = (0..3).map(|_| rand_term(rng, budget)).collect();
    for t in &terms {
        cx.sig(t.sig());
    }
    let flats: Vec<Flat> = terms.iter().map(|t| Flat::new(t)).collect();
    let boxes: Vec<Mutex<Vec<Force<Parcel>>>> = (0..n).map(|_| Mutex::new(Vec::new())).collect();
    let n_ops = if cx.tiny { 6 } else { *rng.pick(&[10, 40, 120]) };
    cx.desc(|| format!("{} threads send greens, caches and pointers around, {} turns each", n, n_ops));
    let log = Log::new();
    let gate = AtomicUsize::new(0);
    let (checks, sent) = (AtomicU64::new(0), AtomicU64::new(0));
    let seed = rng.u64();
    let bodies: Vec<Box<dyn FnOnce() -> R>> = (0..n)
        .map(|me| {
            let (terms, flats, boxes, log, gate, checks, sent) = (&terms, &flats, &boxes, &log, &gate, &checks, &sent);
            let b: Box<dyn FnOnce() -> R> = Box::new(move || {
                let mut rng = Rng::new(seed ^ (me as u64) << 9);
                let mut cx = Ctx::new(false, false);
                let cx = &mut cx;
                line_up(gate, n);
                for turn in 0..n_ops {
                    let got = boxes[me].lock().unwrap_or_else(|e| e.into_inner()).pop();
                    let i = rng.below(terms.len());
                    log.mark(me, turn as u64 % 8);
                    let out = match got.map(|it| it.take()) {
                        None => match rng.below(4) {
                            0 => Parcel::Cache(NodeCache::default()),
                            1 => Parcel::Green(bottom_up(&terms[i]), i),
                            _ => {
                                let root: rowan::SyntaxNode<Odd> = rowan::SyntaxNode::new_root(node_of(&terms[i]));
                                // one that can be told from the others by its place
                                let ids: Vec<usize> = (0..flats[i].kind.len()).filter(|id| flats[i].is_node(*id) && unique(&flats[i], *id)).collect();
                                if ids.is_empty() {
                                    continue;
                                }
                                let id = *rng.pick(&ids);
                                let cur: SyntaxNode = root.into();
                                let Some(NodeOrToken::Node(it)) = cur.descendants_with_tokens().nth(id) else {
                                    continue;
                                };
                                let typed: rowan::SyntaxNode<Odd> = it.into();
                                if rng.bool() {
                                    Parcel::Ptr(SyntaxNodePtr::new(&typed), i, id)
                                } else {
                                    match <crate::misc::AnyOdd as rowan::ast::AstNode>::cast(typed) {
                                        Some(a) => Parcel::AstPtr(AstPtr::new(&a), i, id),
                                        None => continue,
                                    }
                                }
                            }
                        },
                        Some(Parcel::Cache(mut c)) => {
                            let mut b = GreenNodeBuilder::with_cache(&mut c);
                            emit(&terms[i], &mut b);
                            let g = b.finish();
                            same_green(&g, &terms[i])?;
                            cx.checks += 1;
                            if rng.pct(50) {
                                let to = rng.below(n);
                                sent.fetch_add(1, Relaxed);
                                boxes[to].lock().unwrap_or_else(|e| e.into_inner()).push(Force(Parcel::Green(g.into(), i)));
                            }
                            Parcel::Cache(c)
                        }
                        Some(Parcel::Green(g, i)) => {
                            if let (NodeOrToken::Node(g), T::N(..)) = (&g, &*terms[i]) {
                                same_green(g, &terms[i])?;
                                cx.checks += 1;
                            }
                            Parcel::Green(g, i)
                        }
                        Some(Parcel::Ptr(p, i, id)) => {
                            let root: rowan::SyntaxNode<Odd> = rowan::SyntaxNode::new_root(node_of(&terms[i]));
                            let found = p.try_to_node(&root).map(|it| -> SyntaxNode { it.into() });
                            let want = { SyntaxNode::from(root) }.descendants_with_tokens().nth(id).and_then(|it| it.into_node());
                            let same = match (&found, &want) {
                                (Some(a), Some(b)) => a.text_range() == b.text_range() && a.kind() == b.kind(),
                                _ => false,
                            };
                            ck!(cx, same, "a pointer that was sent to another thread does not find its node");
                            Parcel::Ptr(p, i, id)
                        }
                        Some(Parcel::AstPtr(p, i, id)) => {
                            let f = &flats[i];
                            let r = p.syntax_node_ptr().text_range();
                            ckeq!(cx, u32::from(r.start()) as u64, f.start[id], "start in a pointer that was sent to another thread");
                            Parcel::AstPtr(p, i, id)
                        }
                    };
                    jitter(&mut rng);
                    if rng.pct(85) {
                        let to = rng.below(n);
                        sent.fetch_add(1, Relaxed);
                        boxes[to].lock().unwrap_or_else(|e| e.into_inner()).push(Force(out));
                    }
                }
                checks.fetch_add(cx.checks, Relaxed);
                Ok(())
            });
            b
        })
        .collect();
    run(bodies)?;
    drop(boxes);
    cx.sig(log.sig());
    cx.add("threads", n as u64);
    cx.add("events", log.events());
    cx.add("things sent", sent.load(Relaxed));
    let checks = checks.load(Relaxed);
    cx.add("checks in threads", checks);
    cx.checks += checks;
    Ok(())
}

fn unique(f: &Flat, id: usize) -> bool {
    f.len[id] > 0
        && (0..f.kind.len()).filter(|it| f.is_node(*it) && f.kind[*it] == f.kind[id] && f.start[*it] == f.start[id] && f.len[*it] == f.len[id]).count() == 1
}

// Whether a type may cross threads, found out without failing to compile.
struct Probe<X: ?Sized>(std::marker::PhantomData<X>);
trait No {
    fn is_send(&self) -> bool {
        false
    }
    fn is_sync(&self) -> bool {
        false
    }
}
impl<X: ?Sized> No for &Probe<X> {}
trait YesSend {
    fn is_send(&self) -> bool {
        true
    }
}
impl<X: ?Sized + Send> YesSend for Probe<X> {}
trait YesSync {
    fn is_sync(&self) -> bool {
        true
    }
}
impl<X: ?Sized + Sync> YesSync for Probe<X> {}

macro_rules! probe {
    ($cx:ident, $want:expr, $($t:ty),* $(,)?) => {$(
        let p = Probe::<$t>(std::marker::PhantomData);
        let got = ((&p).is_send(), (&p).is_sync());
        $cx.count("types probed");
        let (send, sync): (Option<bool>, Option<bool>) = $want;
        if let Some(want) = send {
            ckeq!($cx, got.0, want, "can {} be sent to another thread", stringify!($t));
        }
        if let Some(want) = sync {
            ckeq!($cx, got.1, want, "can {} be shared between threads", stringify!($t));
        }
    )*};
}

pub fn c18_special(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    if which == 0 {
        let yes = (Some(true), Some(true));
        let no = (Some(false), Some(false));
        probe!(cx, yes, GreenNode, GreenToken, rowan::GreenNodeData, rowan::GreenTokenData, GreenEl, SyntaxNodePtr<Odd>, AstPtr<crate::misc::AnyOdd>);
        probe!(cx, (Some(true), None), NodeCache);
        probe!(
            cx,
            no,
            SyntaxNode,
            rowan::cursor::SyntaxToken,
            SyntaxElement,
            rowan::SyntaxNode<Odd>,
            rowan::SyntaxToken<Odd>,
            rowan::SyntaxElement<Odd>,
            rowan::SyntaxText,
            rowan::cursor::SyntaxNodeChildren,
            rowan::cursor::SyntaxElementChildren,
            rowan::cursor::Preorder,
            rowan::cursor::PreorderWithTokens,
            rowan::SyntaxNodeChildren<Odd>,
            rowan::SyntaxElementChildren<Odd>,
            rowan::api::Preorder<Odd>,
            rowan::api::PreorderWithTokens<Odd>,
            rowan::ast::AstChildren<crate::misc::AnyOdd>,
        );
        cx.desc(|| "which types may cross threads".into());
        return Ok(());
    }
    let mut left = 0;
    for _ in 0..3 {
        left = traffic(cx, rng)?;
        if left == 0 {
            break;
        }
    }
    // a lost update shows as a leak
    if !cfg!(any(miri, feature = "plainalloc")) {
        ckeq!(cx, left, 0, "allocations left behind after a lot of traffic");
    }
    Ok(())
}

/// One value, a lot of clones and drops. Returns the allocations left behind.
fn traffic(cx: &mut Ctx, rng: &mut Rng) -> R<i64> {
    cx.add("clones and drops racing", 0);
    let (threads, n) = if cx.tiny { (2, 10) } else { (8, 60_000) };
    let before = live();
    let g = GreenNode::new(sk(1), vec![GreenToken::new(sk(2), "x").into()]);
    let t = GreenToken::new(sk(2), "traffic");
    let log = Log::new();
    let gate = AtomicUsize::new(0);
    let seed = rng.u64();
    let bodies: Vec<Box<dyn FnOnce() -> R>> = (0..threads)
        .map(|me| {
            let (g, t, gate, log) = (&g, &t, &gate, &log);
            let b: Box<dyn FnOnce() -> R> = Box::new(move || {
                let mut rng = Rng::new(seed ^ me as u64);
                line_up(gate, threads);
                for i in 0..n {
                    let a = g.clone();
                    let b = t.clone();
                    let c = rng.bool().then(|| g.children().next().map(|it| it.to_owned()));
                    if i % 1000 == 0 {
                        log.mark(me, 0);
                    }
                    drop((a, b, c));
                }
                Ok(())
            });
            b
        })
        .collect();
    run(bodies)?;
    ckeq!(cx, g.to_string(), "x", "text after a lot of traffic");
    ckeq!(cx, t.text(), "traffic", "token text after a lot of traffic");
    drop((g, t));
    cx.add("clones and drops racing", 2 * (threads * n) as u64);
    cx.sig(log.sig());
    drop((log, gate));
    let after = live();
    Ok(after.0 - before.0)
}
