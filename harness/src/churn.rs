//! Bursts of tiny trees, each at the addresses that the one before has just given up, and each
//! asked the same single thing: whatever is remembered about a tree must not outlive it.
use std::{
    cell::RefCell,
    sync::{
        mpsc::{sync_channel, Receiver, SyncSender},
        Arc,
    },
};

use rowan::{
    api,
    ast::SyntaxNodePtr,
    cursor::{SyntaxElement, SyntaxNode},
    GreenNode, NodeOrToken, SyntaxKind,
};

use crate::{
    build::{bottom_up, node_of},
    ck, ckeq, green, misc, nav,
    nav::hash_of,
    rng::Rng,
    term::{tiny_term, Flat, T},
    text::{self, Raw},
    tree::{fresh_mut, rng_of, same_tree, ts, Tree},
    util::{catch, Ctx, R},
};

type Ask = fn(&mut Ctx, &mut Rng, &Tree) -> R;

const ROUNDS: usize = 16;

fn n_bursts() -> usize {
    if elsewhere() {
        100
    } else {
        800
    }
}

/// Another thread, which drops what it is given.
struct Hands {
    give: SyncSender<GreenNode>,
    done: Receiver<()>,
}

thread_local! {
    static HANDS: RefCell<Option<Hands>> = const { RefCell::new(None) };
}

fn elsewhere() -> bool {
    HANDS.with_borrow(|it| it.is_some())
}

/// Drops the last reference to a tree, on the other thread if there is one.
fn gone(g: Option<GreenNode>) {
    let Some(g) = g else { return };
    HANDS.with_borrow(|it| match it {
        Some(hands) => {
            hands.give.send(g).unwrap();
            hands.done.recv().unwrap();
        }
        None => drop(g),
    })
}

/// The bursts of all other properties, with each tree dropped by another thread: what is remembered
/// about a tree on one thread must not outlive its end on another (C18).
pub fn handover(cx: &mut Ctx, rng: &mut Rng) -> R {
    let all: [fn(&mut Ctx, &mut Rng) -> R; 13] = [c03, c04, c05, c06, c07, c08, c09, c10, c11, edits, c20, c21, c22];
    for (i, f) in all.iter().enumerate() {
        if cx.tiny && i != rng.below(13) && i != 0 {
            continue;
        }
        let seed = rng.u64();
        let (give, get) = sync_channel::<GreenNode>(1);
        let (ready, done) = sync_channel(1);
        let other = std::thread::spawn(move || {
            for g in get {
                drop(g);
                if ready.send(()).is_err() {
                    break;
                }
            }
        });
        HANDS.set(Some(Hands { give, done }));
        let r = catch(|| f(cx, &mut Rng::new(seed)));
        HANDS.set(None);
        let _ = other.join();
        crate::alloc::reuse(false);
        cx.count("bursts with trees dropped elsewhere");
        let e = match r {
            Ok(Ok(())) => continue,
            Ok(Err(e)) => e,
            Err(e) => e,
        };
        // is it wrong without another thread as well? Then it is not for this property to tell
        let alone = catch(|| f(&mut Ctx::new(cx.thorough, cx.tiny), &mut Rng::new(seed)));
        crate::alloc::reuse(false);
        if matches!(alone, Ok(Ok(()))) {
            return Err(format!("with trees dropped by another thread: {}", e));
        }
        cx.count("bursts left unjudged, they fail on one thread too");
    }
    Ok(())
}

fn bursts(cx: &mut Ctx, rng: &mut Rng, asks: &[Ask], immutable: bool) -> R {
    if cx.tiny {
        return burst(cx, rng, asks[0], immutable, 2);
    }
    crate::alloc::reuse(true);
    for ask in asks {
        for _ in 0..n_bursts() {
            burst(cx, rng, *ask, immutable, ROUNDS)?;
        }
    }
    cx.add("tiny trees at used addresses", (asks.len() * n_bursts() * ROUNDS) as u64);
    Ok(())
}

fn burst(cx: &mut Ctx, rng: &mut Rng, ask: Ask, immutable: bool, rounds: usize) -> R {
    let way = if immutable { rng.below(2) } else { rng.below(4) };
    let what = rng.u64();
    // the same contents now and then, so that what is remembered is right at times
    let few = rng.bool();
    let pool: Vec<u64> = (0..3).map(|_| rng.u64()).collect();
    for _ in 0..rounds {
        let seed = if few { *rng.pick(&pool) } else { rng.u64() };
        let term = tiny_term(&mut Rng::new(seed));
        let flat = Flat::new(&term);
        cx.sig(term.sig());
        let g = node_of(&term);
        let last = elsewhere().then(|| g.clone());
        let (root, flavor) = match way {
            0 => (SyntaxNode::new_root(g), "immutable"),
            1 => {
                let above = SyntaxNode::new_root(GreenNode::new(SyntaxKind(9), vec![NodeOrToken::Node(g)]));
                (above.first_child().ok_or("no child")?.clone_subtree(), "subtree copy")
            }
            2 => (SyntaxNode::new_root_mut(g), "mutable"),
            _ => (SyntaxNode::new_root(g).clone_for_update(), "mutable clone"),
        };
        let tree = Tree { root, flat, term, flavor, keep: vec![], other: vec![] };
        ask(cx, &mut Rng::new(what), &tree)?;
        drop(tree);
        gone(last);
    }
    Ok(())
}

fn some(rng: &mut Rng, tree: &Tree) -> R<(usize, SyntaxElement)> {
    let id = rng.below(tree.flat.n());
    Ok((id, tree.at(id)?))
}

fn some_node(rng: &mut Rng, tree: &Tree) -> R<(usize, SyntaxNode)> {
    let ns: Vec<usize> = (0..tree.flat.n()).filter(|it| tree.flat.is_node(*it)).collect();
    let id = *rng.pick(&ns);
    Ok((id, tree.node_at(id)?))
}

pub fn c02(cx: &mut Ctx, rng: &mut Rng) -> R {
    crate::alloc::reuse(!cx.tiny);
    for _ in 0..if cx.tiny { 2 } else { 5 * n_bursts() } {
        let trees: Vec<Arc<T>> = (0..rng.range(1, 3)).map(|_| tiny_term(rng)).collect();
        green::c02_run(cx, rng, &trees)?;
    }
    Ok(())
}

pub fn c03(cx: &mut Ctx, rng: &mut Rng) -> R {
    crate::alloc::reuse(!cx.tiny);
    for _ in 0..if cx.tiny { 2 } else { n_bursts() } {
        let base = tiny_term(rng);
        let g = node_of(&base);
        let way = rng.below(5);
        for _ in 0..ROUNDS {
            let other = match rng.below(3) {
                0 => base.clone(),
                1 => green::mutate(rng, &base).0,
                _ => tiny_term(rng),
            };
            if !other.is_node() {
                continue;
            }
            cx.sig(other.sig());
            let h = node_of(&other);
            let want = *base == *other;
            // one and the same question throughout
            match way {
                0 => ckeq!(cx, g == h, want, "equality of {} and {}", base.show(), other.show()),
                1 => ckeq!(cx, h == g, want, "equality of {} and {}", other.show(), base.show()),
                2 => ckeq!(cx, *g != *h, !want, "inequality of {} and {}", base.show(), other.show()),
                3 => ck!(cx, !want || hash_of(&g) == hash_of(&h), "{} hashes differently", base.show()),
                _ => ckeq!(cx, hash_of(&h), hash_of(&node_of(&other)), "hash of another copy of {}", other.show()),
            }
            ckeq!(cx, h.to_string(), other.text(), "text of {}", other.show());
            ckeq!(cx, u64::from(u32::from(h.text_len())), other.len(), "length of {}", other.show());
            gone(Some(h));
        }
    }
    Ok(())
}

pub fn c04(cx: &mut Ctx, rng: &mut Rng) -> R {
    crate::alloc::reuse(!cx.tiny);
    for _ in 0..if cx.tiny { 1 } else { n_bursts() } {
        let seed = rng.u64();
        for _ in 0..ROUNDS {
            let t = tiny_term(rng);
            cx.sig(t.sig());
            let g = node_of(&t);
            green::check_edit(cx, &mut Rng::new(seed), &g, &t)?;
            gone(Some(g));
        }
    }
    Ok(())
}

pub fn c05(cx: &mut Ctx, rng: &mut Rng) -> R {
    fn ask(cx: &mut Ctx, rng: &mut Rng, tree: &Tree) -> R {
        let (id, e) = some(rng, tree)?;
        nav::check_nav(cx, rng, tree, id, &e)
    }
    bursts(cx, rng, &[ask], false)
}

pub fn c06(cx: &mut Ctx, rng: &mut Rng) -> R {
    fn ask(cx: &mut Ctx, rng: &mut Rng, tree: &Tree) -> R {
        let (id, e) = some(rng, tree)?;
        nav::check_range(cx, tree, id, &e)
    }
    bursts(cx, rng, &[ask], false)
}

pub fn c07(cx: &mut Ctx, rng: &mut Rng) -> R {
    fn nodes(cx: &mut Ctx, rng: &mut Rng, tree: &Tree) -> R {
        let (id, n) = some_node(rng, tree)?;
        let f = &tree.flat;
        let want: Vec<usize> = f.kids[id].iter().map(|it| *it as usize).filter(|it| f.is_node(*it)).collect();
        nav::run_nodes(cx, rng, tree, &n, &want)
    }
    fn elements(cx: &mut Ctx, rng: &mut Rng, tree: &Tree) -> R {
        let (id, n) = some_node(rng, tree)?;
        let want: Vec<usize> = tree.flat.kids[id].iter().map(|it| *it as usize).collect();
        nav::run_elements(cx, rng, tree, &n, &want)
    }
    bursts(cx, rng, &[nodes, elements], false)
}

pub fn c08(cx: &mut Ctx, rng: &mut Rng) -> R {
    fn ask(cx: &mut Ctx, rng: &mut Rng, tree: &Tree) -> R {
        let (id, _) = some_node(rng, tree)?;
        nav::c08_at(cx, rng, tree, id)
    }
    bursts(cx, rng, &[ask], false)
}

pub fn c09(cx: &mut Ctx, rng: &mut Rng) -> R {
    fn offset(cx: &mut Ctx, rng: &mut Rng, tree: &Tree) -> R {
        let (id, n) = if rng.bool() { (0, tree.root.clone()) } else { some_node(rng, tree)? };
        let off = tree.flat.start[id] + (rng.below(4) as u64).min(tree.flat.len[id]);
        nav::lookups_at(cx, tree, id, &n, off)
    }
    fn range(cx: &mut Ctx, rng: &mut Rng, tree: &Tree) -> R {
        let (id, n) = if rng.bool() { (0, tree.root.clone()) } else { some_node(rng, tree)? };
        let (x, y) = (rng.below(4) as u64, rng.below(3) as u64);
        let len = tree.flat.len[id];
        let a = tree.flat.start[id] + x.min(len);
        nav::ranges_at(cx, tree, id, &n, a, tree.flat.start[id] + (x + y).min(len))
    }
    bursts(cx, rng, &[offset, range], false)
}

pub fn c10(cx: &mut Ctx, rng: &mut Rng) -> R {
    fn ask(cx: &mut Ctx, rng: &mut Rng, tree: &Tree) -> R {
        let (id, _) = some_node(rng, tree)?;
        let v = text::view(tree, id)?;
        text::check_view(cx, rng, &v)
    }
    fn slice(cx: &mut Ctx, rng: &mut Rng, tree: &Tree) -> R {
        let v = text::view(tree, 0)?;
        let v = text::slice(rng, &v);
        text::check_view(cx, rng, &v)
    }
    bursts(cx, rng, &[ask, slice], false)
}

pub fn c11(cx: &mut Ctx, rng: &mut Rng) -> R {
    fn ask(cx: &mut Ctx, rng: &mut Rng, tree: &Tree) -> R {
        let (i, a) = some(rng, tree)?;
        let (j, b) = some(rng, tree)?;
        nav::eq_pair(cx, &a, &b, i == j, &|| format!("elements {} and {} of {}", i, j, tree.term.show()))
    }
    bursts(cx, rng, &[ask], false)
}

/// C12, C13, C14
pub fn edits(cx: &mut Ctx, rng: &mut Rng) -> R {
    fn ask(cx: &mut Ctx, rng: &mut Rng, tree: &Tree) -> R {
        let origin = node_of(&tree.term);
        let root = SyntaxNode::new_root_mut(origin.clone());
        let watched = rng.below(tree.flat.n());
        let mut at = SyntaxElement::Node(root.clone());
        for i in tree.flat.path(watched) {
            at = at.into_node().and_then(|it| it.children_with_tokens().nth(i)).ok_or("no child")?;
        }
        let kids = tree.term.kids().to_vec();
        let (x, y) = (rng.below(4).min(kids.len()), rng.below(4).min(kids.len()));
        let (x, y) = (x.min(y), x.max(y));
        let new = tiny_term(rng);
        root.splice_children(x..y, vec![fresh_mut(&new)]);
        let mut want = kids.clone();
        want.splice(x..y, [new.clone()]);
        let want = T::N(tree.term.kind(), want);
        let what = || format!("{} after {} was put in place of its children {}..{}", tree.term.show(), new.show(), x, y);
        same_tree(&root, &want).map_err(|e| format!("{}: {}", what(), e))?;
        ck!(cx, root.green().into_owned() == node_of(&want), "green tree of {}", what());
        // the element that was held
        let f = Flat::new(&want);
        let top = tree.flat.path(watched).first().copied();
        match top {
            Some(i) if x <= i && i < y => {
                let part = Flat::new(&kids[i]);
                let id = watched - tree.flat.kids[0][i] as usize;
                ckeq!(cx, at.text_range(), rng_of(&part, id), "range of a removed element of {}", what());
            }
            _ => {
                let moved = match top {
                    Some(i) => {
                        let j = if i < x { i } else { i + 1 - (y - x) };
                        f.kids[0][j] as usize + (watched - tree.flat.kids[0][i] as usize)
                    }
                    None => 0,
                };
                ckeq!(cx, at.text_range(), rng_of(&f, moved), "range of element {} of {}", watched, what());
                ckeq!(cx, at.kind().0, f.kind[moved], "kind of element {} of {}", watched, what());
            }
        }
        // where it came from
        same_tree(&tree.root, &tree.term).map_err(|e| format!("{} changed: {}", tree.term.show(), e))?;
        ck!(cx, origin == node_of(&tree.term), "the green tree below {} changed", what());
        Ok(())
    }
    bursts(cx, rng, &[ask], true)
}

pub fn c20(cx: &mut Ctx, rng: &mut Rng) -> R {
    crate::alloc::reuse(!cx.tiny);
    let home = SyntaxNode::new_root(node_of(&T::N(0, vec![Arc::new(T::K(9, "abcdef".into())); 2])));
    for _ in 0..if cx.tiny { 2 } else { 2 * n_bursts() } {
        // one pointer: where many trees have such a node, and others none
        let (kind, a, n) = (1 + rng.below(3) as u16, rng.below(3) as u32, rng.below(4) as u32);
        let place = T::N(0, vec![Arc::new(T::K(9, "abc"[..a as usize].into())), Arc::new(T::N(kind, vec![Arc::new(T::K(9, "abc"[..n as usize].into()))]))]);
        let place = SyntaxNode::new_root(node_of(&place));
        let ptr = SyntaxNodePtr::new(&api::SyntaxNode::<Raw>::from(place.first_child().ok_or("no child")?));
        drop(place);
        let raw = rng.pct(30);
        for _ in 0..2 * ROUNDS {
            let t = tiny_term(rng);
            cx.sig(t.sig());
            let f = Flat::new(&t);
            let want: Vec<usize> = (0..f.n()).filter(|it| f.is_node(*it) && (f.kind[*it], f.start[*it], f.len[*it]) == (kind, a as u64, n as u64)).collect();
            let g = node_of(&t);
            let last = elsewhere().then(|| g.clone());
            let tree = Tree { root: SyntaxNode::new_root(g), flat: f, term: t, flavor: "immutable", keep: vec![], other: vec![] };
            let root: api::SyntaxNode<Raw> = tree.root.clone().into();
            if raw && want.is_empty() {
                continue;
            }
            match ptr.try_to_node(&root) {
                Some(it) => {
                    let id = tree.locate(&SyntaxElement::Node(it.into()))?;
                    ck!(cx, want.contains(&id), "{:?} finds element {} of {}", ptr, id, tree.term.show());
                    cx.count("found in a tiny tree");
                }
                None => ck!(cx, want.is_empty(), "{:?} is not found in {}", ptr, tree.term.show()),
            }
            drop((root, tree));
            gone(last);
        }
    }
    ck!(cx, home.text_range().len() == ts(12), "another tree changed");
    Ok(())
}

pub fn c21(cx: &mut Ctx, rng: &mut Rng) -> R {
    fn ask(cx: &mut Ctx, rng: &mut Rng, tree: &Tree) -> R {
        let (id, n) = some_node(rng, tree)?;
        misc::ast_at(cx, tree, id, &n)
    }
    fn typed(cx: &mut Ctx, rng: &mut Rng, tree: &Tree) -> R {
        match some(rng, tree)?.1 {
            NodeOrToken::Node(n) => misc::typed_node(cx, rng, &n),
            NodeOrToken::Token(t) => misc::typed_token(cx, &t),
        }
    }
    bursts(cx, rng, &[ask, typed], false)
}

pub fn c22(cx: &mut Ctx, rng: &mut Rng) -> R {
    fn ask(cx: &mut Ctx, rng: &mut Rng, tree: &Tree) -> R {
        let (id, e) = some(rng, tree)?;
        text::check_one::<Raw>(cx, rng, tree, &e, id)
    }
    fn green(cx: &mut Ctx, _: &mut Rng, tree: &Tree) -> R {
        for t in tree.term.kids() {
            let want = t.text();
            ckeq!(cx, bottom_up(t).to_string(), want, "display form of the green form of {}", t.show());
        }
        Ok(())
    }
    bursts(cx, rng, &[ask, green], false)
}
