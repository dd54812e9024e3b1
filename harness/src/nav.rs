//! C05 navigation, C06 ranges and indices, C07 child iterators, C08 walks, C09 lookups,
//! C11 identity.
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};

use rowan::{
    cursor::{SyntaxElement, SyntaxNode, SyntaxToken},
    Direction, NodeCache, NodeOrToken, SyntaxKind, TextRange, TokenAtOffset, WalkEvent,
};

use crate::{
    ck, ckeq,
    rng::Rng,
    term::{self, rand_shape, Flat, T},
    tree::*,
    util::{Ctx, R},
};
use std::sync::Arc;

pub fn setup(cx: &mut Ctx, rng: &mut Rng, pick: Pick, budget: usize) -> R<Tree> {
    let budget = if cx.tiny { budget.min(10) } else { budget };
    let t = rand_shape(rng, budget);
    let mut cache = NodeCache::default();
    let use_cache = rng.pct(40);
    let tree = make_tree(rng, &t, pick, use_cache.then_some(&mut cache))?;
    cx.sig(t.sig());
    cx.sig(crate::rng::mix(tree.flavor.len() as u64));
    cx.case_trivial = tree.flat.n() < 3;
    cx.count(&format!("flavor {}", tree.flavor));
    cx.add("elements", tree.flat.n() as u64);
    cx.desc(|| format!("{} {}", tree.flavor, t.show()));
    Ok(tree)
}

pub fn ids(rng: &mut Rng, f: &Flat, max: usize) -> Vec<usize> {
    if f.n() <= max {
        return (0..f.n()).collect();
    }
    let mut v = vec![0, f.n() - 1];
    for _ in 0..max {
        v.push(rng.below(f.n()));
    }
    v
}

fn opt(tree: &Tree, e: Option<SyntaxElement>) -> R<Option<usize>> {
    e.map(|it| tree.locate(&it)).transpose()
}

fn optn(tree: &Tree, e: Option<SyntaxNode>) -> R<Option<usize>> {
    opt(tree, e.map(Into::into))
}

fn optt(tree: &Tree, e: Option<SyntaxToken>) -> R<Option<usize>> {
    opt(tree, e.map(Into::into))
}

fn list<E: Into<SyntaxElement>>(tree: &Tree, it: impl Iterator<Item = E>) -> R<Vec<usize>> {
    let max = tree.flat.n() + 8;
    let mut res = Vec::new();
    for e in it {
        res.push(tree.locate(&e.into())?);
        if res.len() > max {
            return Err("an iterator yields more elements than there are".into());
        }
    }
    Ok(res)
}

// ------------------------------------------------------------------------------------- C05

pub fn exp_sibs(f: &Flat, id: usize, next: bool, nodes_only: bool) -> Vec<usize> {
    // the element itself, and then those after (before) it
    let mut res = vec![id];
    if let Some(p) = f.parent(id) {
        let i = f.idx[id] as usize;
        let all: Vec<usize> = f.kids[p].iter().map(|it| *it as usize).collect();
        let rest: Vec<usize> = if next { all[i + 1..].to_vec() } else { all[..i].iter().rev().copied().collect() };
        res.extend(rest.into_iter().filter(|it| !nodes_only || f.is_node(*it)));
    }
    res
}

fn first_tok(f: &Flat, id: usize) -> Option<usize> {
    (id..f.end[id] as usize).find(|it| !f.is_node(*it))
}

fn last_tok(f: &Flat, id: usize) -> Option<usize> {
    (id..f.end[id] as usize).rev().find(|it| !f.is_node(*it))
}

pub fn check_nav(cx: &mut Ctx, rng: &mut Rng, tree: &Tree, id: usize, e: &SyntaxElement) -> R {
    let f = &tree.flat;
    let at = |what: &str| format!("{} of element {} of {} tree {}", what, id, tree.flavor, tree.term.show());
    let par = f.parent(id);
    ckeq!(cx, optn(tree, e.parent())?, par, "{}", at("parent"));
    let next = exp_sibs(f, id, true, false);
    let prev = exp_sibs(f, id, false, false);
    ckeq!(cx, opt(tree, e.next_sibling_or_token())?, next.get(1).copied(), "{}", at("next_sibling_or_token"));
    ckeq!(cx, opt(tree, e.prev_sibling_or_token())?, prev.get(1).copied(), "{}", at("prev_sibling_or_token"));
    ckeq!(cx, optt(tree, e.first_token())?, first_tok(f, id), "{}", at("first_token"));
    ckeq!(cx, optt(tree, e.last_token())?, last_tok(f, id), "{}", at("last_token"));
    // by kind: a random set of kinds, often containing a kind that is near
    let mut set: Vec<u16> = Vec::new();
    for _ in 0..rng.below(4) {
        set.push(f.kind[rng.below(f.n())]);
    }
    if let (Some(x), true) = (next.get(rng.below(next.len())), rng.bool()) {
        set.push(f.kind[*x]);
    }
    let m = |k: SyntaxKind| set.contains(&k.0);
    let want = next.iter().skip(1).copied().find(|it| set.contains(&f.kind[*it]));
    ckeq!(cx, opt(tree, e.next_sibling_or_token_by_kind(&m))?, want, "{}", at("next_sibling_or_token_by_kind"));
    let anc = f.ancestors(id);
    let from = if f.is_node(id) { 0 } else { 1 };
    ckeq!(cx, list(tree, e.ancestors())?, anc[from..].to_vec(), "{}", at("element ancestors"));
    match e {
        NodeOrToken::Node(n) => {
            ckeq!(cx, optn(tree, n.parent())?, par, "{}", at("node parent"));
            ckeq!(cx, list(tree, n.ancestors())?, anc, "{}", at("ancestors"));
            let kids: Vec<usize> = f.kids[id].iter().map(|it| *it as usize).collect();
            let nodes: Vec<usize> = kids.iter().copied().filter(|it| f.is_node(*it)).collect();
            ckeq!(cx, optn(tree, n.first_child())?, nodes.first().copied(), "{}", at("first_child"));
            ckeq!(cx, optn(tree, n.last_child())?, nodes.last().copied(), "{}", at("last_child"));
            ckeq!(cx, opt(tree, n.first_child_or_token())?, kids.first().copied(), "{}", at("first_child_or_token"));
            ckeq!(cx, opt(tree, n.last_child_or_token())?, kids.last().copied(), "{}", at("last_child_or_token"));
            if !kids.is_empty() && rng.bool() {
                set.push(f.kind[*rng.pick(&kids)]);
            }
            let m = |k: SyntaxKind| set.contains(&k.0);
            let want = nodes.iter().copied().find(|it| set.contains(&f.kind[*it]));
            ckeq!(cx, optn(tree, n.first_child_by_kind(&m))?, want, "{}", at("first_child_by_kind"));
            let want = kids.iter().copied().find(|it| set.contains(&f.kind[*it]));
            ckeq!(cx, opt(tree, n.first_child_or_token_by_kind(&m))?, want, "{}", at("first_child_or_token_by_kind"));
            let nnext = exp_sibs(f, id, true, true);
            let nprev = exp_sibs(f, id, false, true);
            ckeq!(cx, optn(tree, n.next_sibling())?, nnext.get(1).copied(), "{}", at("next_sibling"));
            ckeq!(cx, optn(tree, n.prev_sibling())?, nprev.get(1).copied(), "{}", at("prev_sibling"));
            ckeq!(cx, opt(tree, n.next_sibling_or_token())?, next.get(1).copied(), "{}", at("node next_sibling_or_token"));
            ckeq!(cx, opt(tree, n.prev_sibling_or_token())?, prev.get(1).copied(), "{}", at("node prev_sibling_or_token"));
            let want = nnext.iter().skip(1).copied().find(|it| set.contains(&f.kind[*it]));
            ckeq!(cx, optn(tree, n.next_sibling_by_kind(&m))?, want, "{}", at("next_sibling_by_kind"));
            let want = next.iter().skip(1).copied().find(|it| set.contains(&f.kind[*it]));
            ckeq!(cx, opt(tree, n.next_sibling_or_token_by_kind(&m))?, want, "{}", at("node next_sibling_or_token_by_kind"));
            ckeq!(cx, optt(tree, n.first_token())?, first_tok(f, id), "{}", at("node first_token"));
            ckeq!(cx, optt(tree, n.last_token())?, last_tok(f, id), "{}", at("node last_token"));
            if next.len() + prev.len() < 200 {
                ckeq!(cx, list(tree, n.siblings(Direction::Next))?, nnext, "{}", at("siblings(Next)"));
                ckeq!(cx, list(tree, n.siblings(Direction::Prev))?, nprev, "{}", at("siblings(Prev)"));
                ckeq!(cx, list(tree, n.siblings_with_tokens(Direction::Next))?, next, "{}", at("siblings_with_tokens(Next)"));
                ckeq!(cx, list(tree, n.siblings_with_tokens(Direction::Prev))?, prev, "{}", at("siblings_with_tokens(Prev)"));
            }
        }
        NodeOrToken::Token(t) => {
            ckeq!(cx, t.text(), &**f.text[id].as_ref().unwrap(), "{}", at("text"));
            ckeq!(cx, optn(tree, t.parent())?, par, "{}", at("token parent"));
            ckeq!(cx, list(tree, t.ancestors())?, anc[1..].to_vec(), "{}", at("token ancestors"));
            ckeq!(cx, opt(tree, t.next_sibling_or_token())?, next.get(1).copied(), "{}", at("token next_sibling_or_token"));
            ckeq!(cx, opt(tree, t.prev_sibling_or_token())?, prev.get(1).copied(), "{}", at("token prev_sibling_or_token"));
            let want = next.iter().skip(1).copied().find(|it| set.contains(&f.kind[*it]));
            ckeq!(cx, opt(tree, t.next_sibling_or_token_by_kind(&m))?, want, "{}", at("token next_sibling_or_token_by_kind"));
            let want = (id + 1..f.n()).find(|it| !f.is_node(*it));
            ckeq!(cx, optt(tree, t.next_token())?, want, "{}", at("next_token"));
            let want = (0..id).rev().find(|it| !f.is_node(*it));
            ckeq!(cx, optt(tree, t.prev_token())?, want, "{}", at("prev_token"));
            if next.len() + prev.len() < 200 {
                ckeq!(cx, list(tree, t.siblings_with_tokens(Direction::Next))?, next, "{}", at("token siblings_with_tokens(Next)"));
                ckeq!(cx, list(tree, t.siblings_with_tokens(Direction::Prev))?, prev, "{}", at("token siblings_with_tokens(Prev)"));
            }
        }
    }
    Ok(())
}

pub fn c05(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = *rng.pick(&[12, 30, 60, 150]);
    let mut tree = setup(cx, rng, Pick::Any, budget)?;
    let max = if cx.tiny { 6 } else { 70 };
    for id in ids(rng, &tree.flat, max) {
        let e = tree.reach(rng, id)?;
        check_nav(cx, rng, &tree, id, &e)?;
        if rng.pct(10) {
            tree.keep.push(e);
        } else if rng.pct(10) && !tree.keep.is_empty() {
            let i = rng.below(tree.keep.len());
            tree.keep.swap_remove(i);
        }
    }
    // random strolls: the position of a handle that wanders around is always the expected one
    let f = &tree.flat;
    let mut cur = 0usize;
    let mut e = el(&tree.root);
    for _ in 0..if cx.tiny { 6 } else { 40 } {
        let (nid, ne) = match rng.below(6) {
            0 => (f.parent(cur), e.parent().map(Into::into)),
            1 => (f.kids[cur].first().map(|it| *it as usize), e.as_node().and_then(|it| it.first_child_or_token())),
            2 => (f.kids[cur].last().map(|it| *it as usize), e.as_node().and_then(|it| it.last_child_or_token())),
            3 => (exp_sibs(f, cur, true, false).get(1).copied(), e.next_sibling_or_token()),
            4 => (exp_sibs(f, cur, false, false).get(1).copied(), e.prev_sibling_or_token()),
            _ => match &e {
                NodeOrToken::Token(t) => ((cur + 1..f.n()).find(|it| !f.is_node(*it)), t.next_token().map(Into::into)),
                NodeOrToken::Node(n) => (first_tok(f, cur), n.first_token().map(Into::into)),
            },
        };
        ckeq!(cx, opt(&tree, ne.clone())?, nid, "stroll from {} in {}", cur, tree.term.show());
        if let (Some(nid), Some(ne)) = (nid, ne) {
            cur = nid;
            e = ne;
        }
    }
    Ok(())
}

/// Large and degenerate shapes, one per index.
pub fn c05_special(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    let t = match which {
        0 => term::chain(rng, 1500),
        1 => term::wide(rng, 4000),
        2 => Arc::new(T::N(1, (0..70_000).map(|i| Arc::new(T::K((i % 3) as u16, if i % 7 == 0 { "".into() } else { "w".into() }))).collect())),
        _ => term::same(rng, 3000),
    };
    cx.sig(t.sig());
    cx.count("special shapes");
    cx.desc(|| format!("special shape {}: {} elements, depth {}", which, t.count(), t.depth()));
    for pick in [Pick::Immutable, Pick::Mutable] {
        let tree = make_tree(rng, &t, pick, None)?;
        let n = if which == 2 { 6 } else { 25 };
        for id in ids(rng, &tree.flat, n) {
            let e = tree.at(id)?;
            check_nav(cx, rng, &tree, id, &e)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C06

pub fn check_range(cx: &mut Ctx, tree: &Tree, id: usize, e: &SyntaxElement) -> R {
    let f = &tree.flat;
    let want = rng_of(f, id);
    ckeq!(cx, e.text_range(), want, "range of element {} of {} tree {}", id, tree.flavor, tree.term.show());
    if id != 0 {
        ckeq!(cx, e.index(), f.idx[id] as usize, "index of element {} of {} tree {}", id, tree.flavor, tree.term.show());
    }
    match e {
        NodeOrToken::Node(n) => {
            ckeq!(cx, n.text_range(), want, "node range of element {} of {}", id, tree.term.show());
            ckeq!(cx, n.text().len(), want.len(), "text length of element {} of {}", id, tree.term.show());
            ckeq!(cx, n.green().text_len(), want.len(), "green length of element {} of {}", id, tree.term.show());
            if id != 0 {
                ckeq!(cx, n.index(), f.idx[id] as usize, "node index of element {}", id);
            }
        }
        NodeOrToken::Token(t) => {
            ckeq!(cx, t.text_range(), want, "token range of element {} of {}", id, tree.term.show());
            ckeq!(cx, t.green().text_len(), want.len(), "green token length of element {}", id);
            ckeq!(cx, t.text().len() as u64, f.len[id], "text length of token {}", id);
            if id != 0 {
                ckeq!(cx, t.index(), f.idx[id] as usize, "token index of element {}", id);
            }
        }
    }
    Ok(())
}

fn check_tiling(cx: &mut Ctx, tree: &Tree, id: usize, n: &SyntaxNode) -> R {
    let f = &tree.flat;
    let r = n.text_range();
    let mut pos = r.start();
    let mut i = 0;
    for c in n.children_with_tokens() {
        let cr = c.text_range();
        ckeq!(cx, cr.start(), pos, "start of child {} of element {} of {}", i, id, tree.term.show());
        ckeq!(cx, c.index(), i, "index of child {} of element {} of {}", i, id, tree.term.show());
        pos = cr.end();
        i += 1;
    }
    ckeq!(cx, pos, r.end(), "end of the children of element {} of {}", id, tree.term.show());
    ckeq!(cx, i, f.kids[id].len(), "number of children of element {}", id);
    Ok(())
}

/// Every route that yields elements: check range and index of what it yields.
fn check_routes(cx: &mut Ctx, rng: &mut Rng, tree: &Tree, e: &SyntaxElement) -> R {
    let mut seen: Vec<SyntaxElement> = Vec::new();
    let dir = if rng.bool() { Direction::Next } else { Direction::Prev };
    seen.extend(e.next_sibling_or_token());
    seen.extend(e.prev_sibling_or_token());
    seen.extend(e.first_token().map(SyntaxElement::from));
    seen.extend(e.last_token().map(SyntaxElement::from));
    seen.extend(e.next_sibling_or_token_by_kind(&|k| k.0 % 2 == 1));
    seen.extend(e.parent().map(SyntaxElement::from));
    match e {
        NodeOrToken::Node(n) => {
            seen.extend(n.next_sibling().map(SyntaxElement::from));
            seen.extend(n.prev_sibling().map(SyntaxElement::from));
            seen.extend(n.next_sibling_by_kind(&|k| k.0 % 2 == 0).map(SyntaxElement::from));
            seen.extend(n.first_child().map(SyntaxElement::from));
            seen.extend(n.last_child().map(SyntaxElement::from));
            seen.extend(n.first_child_by_kind(&|k| k.0 % 2 == 0).map(SyntaxElement::from));
            seen.extend(n.first_child_or_token_by_kind(&|k| k.0 % 2 == 1));
            seen.extend(n.first_child_or_token());
            seen.extend(n.last_child_or_token());
            seen.extend(n.children().take(40).map(SyntaxElement::from));
            seen.extend(n.children_with_tokens().take(40));
            seen.extend(n.children().by_kind(|k| k.0 % 2 == 0).take(40).map(SyntaxElement::from));
            seen.extend(n.children_with_tokens().by_kind(|k| k.0 % 2 == 0).take(40));
            seen.extend(n.siblings(dir).take(40).map(SyntaxElement::from));
            seen.extend(n.siblings_with_tokens(dir).take(40));
            seen.extend(n.descendants().take(40).map(SyntaxElement::from));
            seen.extend(n.descendants_with_tokens().take(60));
            for ev in n.preorder_with_tokens().take(60) {
                match ev {
                    WalkEvent::Enter(it) | WalkEvent::Leave(it) => seen.push(it),
                }
            }
            // advanced in place
            let mut c = n.first_child_or_token();
            let mut k = 0;
            while let Some(it) = c {
                check_one(cx, tree, &it)?;
                k += 1;
                if k > 60 {
                    break;
                }
                c = it.to_next_sibling_or_token();
            }
            let mut c = n.first_child();
            while let Some(it) = c {
                check_one(cx, tree, &it.clone().into())?;
                k += 1;
                if k > 120 {
                    break;
                }
                c = it.to_next_sibling();
            }
            let r = n.text_range();
            if !r.is_empty() {
                let a = r.start() + ts(rng.below(u32::from(r.len()) as usize + 1) as u64);
                seen.extend(n.token_at_offset(a).map(SyntaxElement::from));
                seen.push(n.covering_element(TextRange::empty(a)));
                seen.extend(n.child_or_token_at_range(TextRange::empty(a)));
            }
        }
        NodeOrToken::Token(t) => {
            seen.extend(t.next_token().map(SyntaxElement::from));
            seen.extend(t.prev_token().map(SyntaxElement::from));
            seen.extend(t.siblings_with_tokens(dir).take(40));
            seen.extend(t.ancestors().map(SyntaxElement::from));
        }
    }
    for it in &seen {
        check_one(cx, tree, it)?;
    }
    cx.add("routes", seen.len() as u64);
    Ok(())
}

fn check_one(cx: &mut Ctx, tree: &Tree, e: &SyntaxElement) -> R {
    // The range must be right for the place where the element is, as told by its texts: count
    // the text before it by climbing up, using nothing but the children of each parent.
    let id = tree.locate(e)?;
    check_range(cx, tree, id, e)
}

pub fn c06(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = *rng.pick(&[12, 30, 60, 150]);
    let tree = setup(cx, rng, Pick::Any, budget)?;
    let max = if cx.tiny { 5 } else { 40 };
    for id in ids(rng, &tree.flat, max) {
        let e = tree.reach(rng, id)?;
        check_range(cx, &tree, id, &e)?;
        if let Some(n) = e.as_node() {
            check_tiling(cx, &tree, id, n)?;
        }
        if rng.pct(40) {
            check_routes(cx, rng, &tree, &e)?;
        }
    }
    for e in &tree.keep {
        let id = tree.locate(e)?;
        check_range(cx, &tree, id, e)?;
    }
    Ok(())
}

/// Trees of up to 4 GiB of text, made of few big shared tokens.
pub fn huge_term(rng: &mut Rng, exact: bool) -> Arc<T> {
    let total: u64 =
        if exact { u32::MAX as u64 } else { *rng.pick(&[1u64 << 31, (1 << 31) - 1, (1 << 31) + 1, 3_000_000_000, 4_000_000_000, u32::MAX as u64 - 1]) };
    let big = Arc::new(T::K(1, term::big_text(26)));
    let mid = Arc::new(T::K(2, term::big_text(20)));
    let mut left = total;
    let mut kids: Vec<Arc<T>> = Vec::new();
    while left >= 1 << 26 {
        kids.push(big.clone());
        left -= 1 << 26;
    }
    while left >= 1 << 20 {
        kids.push(mid.clone());
        left -= 1 << 20;
    }
    if left > 0 {
        kids.push(Arc::new(T::K(3, "z".repeat(left as usize).into())));
    }
    for _ in 0..6 {
        let at = rng.below(kids.len() + 1);
        kids.insert(at, Arc::new(T::N(9, vec![])));
        let at = rng.below(kids.len() + 1);
        kids.insert(at, Arc::new(T::K(9, "".into())));
    }
    rng.shuffle(&mut kids);
    // group runs into nodes, three levels deep
    for lvl in 0..3u16 {
        let mut out = Vec::new();
        let mut i = 0;
        while i < kids.len() {
            let n = rng.range(1, 5).min(kids.len() - i);
            if rng.pct(60) {
                out.push(Arc::new(T::N(20 + lvl, kids[i..i + n].to_vec())));
            } else {
                out.extend_from_slice(&kids[i..i + n]);
            }
            i += n;
        }
        kids = out;
    }
    Arc::new(T::N(30, kids))
}

pub fn c06_special(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    let t = match which {
        0 => huge_term(rng, true),
        1 => huge_term(rng, false),
        2 => Arc::new(T::N(1, (0..70_000).map(|i| Arc::new(T::K((i % 3) as u16, if i % 7 == 0 { "".into() } else { "wé".into() }))).collect())),
        _ => term::chain(rng, 1500),
    };
    cx.sig(t.sig());
    cx.count("special shapes");
    cx.desc(|| format!("special shape {}: {} elements, {} bytes", which, t.count(), t.len()));
    let f = Flat::new(&t);
    let g = crate::build::hashcons(&t, &mut Default::default(), &mut Default::default()).into_node().unwrap();
    for mutable in [false, true] {
        let root = if mutable { SyntaxNode::new_root_mut(g.clone()) } else { SyntaxNode::new_root(g.clone()) };
        let tree = Tree { root, flat: Flat::new(&t), term: t.clone(), flavor: "big", keep: vec![], other: vec![] };
        for id in ids(rng, &f, 60) {
            let e = tree.at(id)?;
            check_range(cx, &tree, id, &e)?;
            if which < 2 {
                if let Some(n) = e.as_node() {
                    check_tiling(cx, &tree, id, n)?;
                    if f.len[id] > 0 {
                        let off = f.start[id] + rng.below(f.len[id] as usize + 1) as u64;
                        lookups_at(cx, &tree, id, n, off)?;
                    }
                }
                check_nav(cx, rng, &tree, id, &e)?;
            }
        }
        if which == 2 {
            check_tiling(cx, &tree, 0, &tree.root)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C07

/// Runs an iterator in lockstep with the expected elements.
struct It<'a, I> {
    it: I,
    want: &'a [usize],
    pos: usize,
}

fn step<E: Into<SyntaxElement> + Clone, I: Iterator<Item = E>>(
    cx: &mut Ctx,
    rng: &mut Rng,
    tree: &Tree,
    it: &mut It<'_, I>,
    held: &mut Vec<SyntaxElement>,
    what: &str,
) -> R<bool> {
    let got = it.it.next();
    let want = it.want.get(it.pos).copied();
    let at = match &got {
        Some(e) => {
            let e: SyntaxElement = e.clone().into();
            let id = tree.locate(&e)?;
            check_range(cx, tree, id, &e)?;
            Some(id)
        }
        None => None,
    };
    ckeq!(cx, at, want, "{} step {} of {:?} in {} tree {}", what, it.pos, it.want, tree.flavor, tree.term.show());
    it.pos += 1;
    let done = got.is_none();
    if let Some(e) = got {
        if rng.pct(40) {
            held.push(e.into());
        }
    }
    if rng.pct(20) {
        held.clear();
    }
    Ok(done)
}

pub fn run_nodes(cx: &mut Ctx, rng: &mut Rng, tree: &Tree, n: &SyntaxNode, want: &[usize]) -> R {
    let f = &tree.flat;
    let mut held = Vec::new();
    let mut it = It { it: n.children(), want, pos: 0 };
    let mut others = Vec::new();
    loop {
        if rng.pct(12) && others.len() < 3 {
            others.push(It { it: it.it.clone(), want, pos: it.pos });
        }
        if rng.pct(8) {
            // restricted from here on
            let set: Vec<u16> = (0..rng.range(1, 3)).map(|_| f.kind[rng.below(f.n())]).collect();
            let rest: Vec<usize> = want.iter().skip(it.pos).copied().filter(|it| set.contains(&f.kind[*it])).collect();
            let mut bk = It { it: it.it.clone().by_kind(|k| set.contains(&k.0)), want: &rest, pos: 0 };
            let mut copy = None;
            loop {
                if rng.pct(20) {
                    copy = Some((bk.it.clone(), bk.pos));
                }
                if step(cx, rng, tree, &mut bk, &mut held, "children().by_kind()")? {
                    break;
                }
            }
            if let Some((c, pos)) = copy {
                let mut c = It { it: c, want: &rest, pos };
                while !step(cx, rng, tree, &mut c, &mut held, "cloned children().by_kind()")? {}
            }
            cx.count("by_kind");
        }
        if rng.pct(30) && !others.is_empty() {
            let i = rng.below(others.len());
            step(cx, rng, tree, &mut others[i], &mut held, "cloned children()")?;
        }
        if step(cx, rng, tree, &mut it, &mut held, "children()")? {
            break;
        }
    }
    step(cx, rng, tree, &mut it, &mut held, "children() after the end")?;
    for mut o in others {
        while !step(cx, rng, tree, &mut o, &mut held, "cloned children()")? {}
    }
    Ok(())
}

pub fn run_elements(cx: &mut Ctx, rng: &mut Rng, tree: &Tree, n: &SyntaxNode, want: &[usize]) -> R {
    let f = &tree.flat;
    let mut held = Vec::new();
    let mut it = It { it: n.children_with_tokens(), want, pos: 0 };
    let mut others = Vec::new();
    loop {
        if rng.pct(12) && others.len() < 3 {
            others.push(It { it: it.it.clone(), want, pos: it.pos });
        }
        if rng.pct(8) {
            let set: Vec<u16> = (0..rng.range(1, 3)).map(|_| f.kind[rng.below(f.n())]).collect();
            let rest: Vec<usize> = want.iter().skip(it.pos).copied().filter(|it| set.contains(&f.kind[*it])).collect();
            let mut bk = It { it: it.it.clone().by_kind(|k| set.contains(&k.0)), want: &rest, pos: 0 };
            let mut copy = None;
            loop {
                if rng.pct(20) {
                    copy = Some((bk.it.clone(), bk.pos));
                }
                if step(cx, rng, tree, &mut bk, &mut held, "children_with_tokens().by_kind()")? {
                    break;
                }
            }
            if let Some((c, pos)) = copy {
                let mut c = It { it: c, want: &rest, pos };
                while !step(cx, rng, tree, &mut c, &mut held, "cloned children_with_tokens().by_kind()")? {}
            }
            cx.count("by_kind");
        }
        if rng.pct(30) && !others.is_empty() {
            let i = rng.below(others.len());
            step(cx, rng, tree, &mut others[i], &mut held, "cloned children_with_tokens()")?;
        }
        if step(cx, rng, tree, &mut it, &mut held, "children_with_tokens()")? {
            break;
        }
    }
    step(cx, rng, tree, &mut it, &mut held, "children_with_tokens() after the end")?;
    for mut o in others {
        while !step(cx, rng, tree, &mut o, &mut held, "cloned children_with_tokens()")? {}
    }
    Ok(())
}

fn in_place(cx: &mut Ctx, rng: &mut Rng, tree: &Tree, id: usize) -> R {
    let f = &tree.flat;
    let mut held: Vec<SyntaxElement> = Vec::new();
    // with tokens
    let mut cur = id;
    let mut e = tree.reach(rng, id)?;
    loop {
        let want = exp_sibs(f, cur, true, false).get(1).copied();
        if rng.pct(40) {
            // shared
            held.push(e.clone());
        } else if rng.bool() {
            held.clear();
        }
        let check = rng.bool().then(|| e.next_sibling_or_token());
        let n = e.to_next_sibling_or_token();
        ckeq!(cx, opt(tree, n.clone())?, want, "to_next_sibling_or_token from {} in {} tree {}", cur, tree.flavor, tree.term.show());
        if let Some(c) = check {
            ck!(cx, c == n, "to_next_sibling_or_token and next_sibling_or_token disagree at {} in {}", cur, tree.term.show());
        }
        for h in &held {
            tree.locate(h)?;
        }
        match (n, want) {
            (Some(n), Some(w)) => {
                check_range(cx, tree, w, &n)?;
                e = n;
                cur = w;
            }
            _ => break,
        }
        if rng.pct(4) {
            break;
        }
    }
    if f.is_node(id) {
        let mut cur = id;
        let mut e = tree.reach(rng, id)?.into_node().unwrap();
        loop {
            let want = exp_sibs(f, cur, true, true).get(1).copied();
            if rng.pct(40) {
                held.push(el(&e));
            } else if rng.bool() {
                held.clear();
            }
            let check = rng.bool().then(|| e.next_sibling());
            let n = e.to_next_sibling();
            ckeq!(cx, optn(tree, n.clone())?, want, "to_next_sibling from {} in {} tree {}", cur, tree.flavor, tree.term.show());
            if let Some(c) = check {
                ck!(cx, c == n, "to_next_sibling and next_sibling disagree at {} in {}", cur, tree.term.show());
            }
            for h in &held {
                tree.locate(h)?;
            }
            match (n, want) {
                (Some(n), Some(w)) => {
                    check_range(cx, tree, w, &el(&n))?;
                    e = n;
                    cur = w;
                }
                _ => break,
            }
        }
    }
    cx.count("advanced in place");
    Ok(())
}

pub fn c07(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = *rng.pick(&[12, 30, 60, 150]);
    let tree = setup(cx, rng, Pick::Any, budget)?;
    let f = &tree.flat;
    let max = if cx.tiny { 4 } else { 25 };
    for id in ids(rng, f, max) {
        if f.is_node(id) {
            let n = tree.reach(rng, id)?.into_node().ok_or("not a node")?;
            let kids: Vec<usize> = f.kids[id].iter().map(|it| *it as usize).collect();
            let nodes: Vec<usize> = kids.iter().copied().filter(|it| f.is_node(*it)).collect();
            run_nodes(cx, rng, &tree, &n, &nodes)?;
            run_elements(cx, rng, &tree, &n, &kids)?;
            // the combinators of the standard library
            ckeq!(cx, n.children().count(), nodes.len(), "count of children of {}", id);
            ckeq!(cx, opt(&tree, n.children_with_tokens().last())?, kids.last().copied(), "last of children of {}", id);
            let k = rng.below(kids.len() + 2);
            let mut it = n.children_with_tokens();
            ckeq!(cx, opt(&tree, it.nth(k))?, kids.get(k).copied(), "nth child of {} in {}", id, tree.term.show());
            ckeq!(cx, opt(&tree, it.next())?, kids.get(k + 1).copied(), "child after nth of {} in {}", id, tree.term.show());
            let (lo, hi) = n.children_with_tokens().size_hint();
            ck!(cx, lo <= kids.len() && hi.map_or(true, |hi| hi >= kids.len()), "size_hint {:?} of {} children", (lo, hi), kids.len());
        }
        if rng.bool() {
            in_place(cx, rng, &tree, id)?;
        }
    }
    if rng.bool() {
        // the iterator outlives every other handle
        let Tree { root, flat, term, flavor, keep, other } = tree;
        drop(keep);
        drop(other);
        let it = root.children_with_tokens();
        let want: Vec<u16> = flat.kids[0].iter().map(|it| flat.kind[*it as usize]).collect();
        drop(root);
        let got: Vec<u16> = it.map(|it| it.kind().0).collect();
        ckeq!(cx, got, want, "children of a {} tree whose root was dropped: {}", flavor, term.show());
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C08

#[derive(Debug, PartialEq, Clone, Copy)]
enum Ev {
    In(usize),
    Out(usize),
}

fn exp_walk(f: &Flat, id: usize, tokens: bool, skip: &dyn Fn(usize) -> bool, out: &mut Vec<Ev>) {
    out.push(Ev::In(id));
    if !skip(id) {
        for it in &f.kids[id] {
            let it = *it as usize;
            if tokens || f.is_node(it) {
                exp_walk(f, it, tokens, skip, out);
            }
        }
    }
    out.push(Ev::Out(id));
}

pub fn c08_at(cx: &mut Ctx, rng: &mut Rng, tree: &Tree, id: usize) -> R {
    let f = &tree.flat;
    let n = tree.reach(rng, id)?.into_node().ok_or("not a node")?;
    let limit = 2 * f.n() + 8;
    let sub = f.end[id] as usize - id;
    for mode in 0..2 {
        // mode 1 skips some subtrees, chosen by a hash so that both sides agree
        let salt = rng.u64();
        let p = *rng.pick(&[5, 30, 70, 100]);
        let skip = move |x: usize| mode == 1 && crate::rng::mix(salt ^ x as u64) % 100 < p;
        let twice = rng.bool();
        for tokens in [false, true] {
            let mut want = Vec::new();
            exp_walk(f, id, tokens, &skip, &mut want);
            let mut got = Vec::new();
            let mut held = Vec::new();
            if tokens {
                let mut w = n.preorder_with_tokens();
                while let Some(ev) = w.next() {
                    match &ev {
                        WalkEvent::Enter(it) => {
                            let x = tree.locate(it)?;
                            check_range(cx, tree, x, it)?;
                            got.push(Ev::In(x));
                            if skip(x) {
                                w.skip_subtree();
                                if twice {
                                    w.skip_subtree();
                                }
                                cx.count("skipped");
                            }
                        }
                        WalkEvent::Leave(it) => got.push(Ev::Out(tree.locate(it)?)),
                    }
                    if rng.pct(10) {
                        held.push(ev);
                    }
                    if got.len() > limit {
                        break;
                    }
                }
                if got.len() <= limit {
                    ck!(cx, w.next().is_none(), "a walk goes on after its end");
                }
            } else {
                let mut w = n.preorder();
                let mut held = Vec::new();
                while let Some(ev) = w.next() {
                    match &ev {
                        WalkEvent::Enter(it) => {
                            let x = tree.locate(&el(it))?;
                            check_range(cx, tree, x, &el(it))?;
                            got.push(Ev::In(x));
                            if skip(x) {
                                w.skip_subtree();
                                cx.count("skipped");
                            }
                        }
                        WalkEvent::Leave(it) => got.push(Ev::Out(tree.locate(&el(it))?)),
                    }
                    if rng.pct(10) {
                        held.push(ev);
                    }
                    if got.len() > limit {
                        break;
                    }
                }
                if got.len() <= limit {
                    ck!(cx, w.next().is_none(), "a walk goes on after its end");
                }
            }
            cx.add("events", got.len() as u64);
            ckeq!(cx, got, want, "walk (tokens: {}, skipping: {}) of {} in {} tree {}", tokens, mode == 1, id, tree.flavor, tree.term.show());
        }
    }
    let all: Vec<usize> = (id..id + sub).collect();
    let nodes: Vec<usize> = all.iter().copied().filter(|it| f.is_node(*it)).collect();
    ckeq!(cx, list(tree, n.descendants())?, nodes, "descendants of {} in {} tree {}", id, tree.flavor, tree.term.show());
    ckeq!(cx, list(tree, n.descendants_with_tokens())?, all, "descendants_with_tokens of {} in {} tree {}", id, tree.flavor, tree.term.show());
    Ok(())
}

pub fn c08(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = *rng.pick(&[12, 30, 60, 150]);
    let tree = setup(cx, rng, Pick::Any, budget)?;
    let max = if cx.tiny { 3 } else { 14 };
    for id in ids(rng, &tree.flat, max) {
        if tree.flat.is_node(id) {
            c08_at(cx, rng, &tree, id)?;
        }
    }
    // abandoned walks
    let mut w = tree.root.preorder_with_tokens();
    for _ in 0..rng.below(tree.flat.n()) {
        w.next();
    }
    Ok(())
}

pub fn c08_special(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    let t = match which {
        0 => term::chain(rng, 1500),
        1 => term::wide(rng, 4000),
        _ => term::same(rng, 3000),
    };
    cx.sig(t.sig());
    cx.count("special shapes");
    cx.desc(|| format!("special shape {}: {} elements, depth {}", which, t.count(), t.depth()));
    let pick = if which == 0 { Pick::Immutable } else { Pick::Any };
    let tree = make_tree(rng, &t, pick, None)?;
    if which == 0 {
        // plain structure only, locating every element would be quadratic
        let mut depth = 0i64;
        let mut n = 0;
        for ev in tree.root.preorder_with_tokens() {
            match ev {
                WalkEvent::Enter(_) => {
                    depth += 1;
                    n += 1;
                }
                WalkEvent::Leave(_) => depth -= 1,
            }
            ck!(cx, depth >= 0, "unbalanced walk");
        }
        ckeq!(cx, n, tree.flat.n(), "elements entered");
        ckeq!(cx, depth, 0, "final depth");
        return Ok(());
    }
    c08_at(cx, rng, &tree, 0)
}

// ------------------------------------------------------------------------------------- C09

fn touching(f: &Flat, id: usize, off: u64) -> Vec<usize> {
    (id..f.end[id] as usize).filter(|it| !f.is_node(*it) && f.len[*it] > 0 && f.start[*it] <= off && off <= f.stop(*it)).collect()
}

pub fn lookups_at(cx: &mut Ctx, tree: &Tree, id: usize, n: &SyntaxNode, off: u64) -> R {
    let f = &tree.flat;
    let want = touching(f, id, off);
    let r = n.token_at_offset(ts(off));
    let at = || format!("token_at_offset({}) in element {} of {} tree {}", off, id, tree.flavor, tree.term.show());
    let got: Vec<SyntaxToken> = match &r {
        TokenAtOffset::None => vec![],
        TokenAtOffset::Single(a) => vec![a.clone()],
        TokenAtOffset::Between(a, b) => vec![a.clone(), b.clone()],
    };
    let ids: Vec<usize> = got.iter().map(|it| tree.locate(&it.clone().into())).collect::<R<_>>()?;
    ckeq!(cx, ids, want, "{}", at());
    for (g, w) in got.iter().zip(&want) {
        ckeq!(cx, g.text_range(), rng_of(f, *w), "range from {}", at());
    }
    ck!(cx, got.is_empty() == (f.len[id] == 0), "{}: nothing found", at());
    ckeq!(cx, r.clone().left_biased(), got.first().cloned(), "left_biased of {}", at());
    ckeq!(cx, r.clone().right_biased(), got.last().cloned(), "right_biased of {}", at());
    ckeq!(cx, r.size_hint(), (got.len(), Some(got.len())), "size_hint of {}", at());
    ckeq!(cx, r.len(), got.len(), "len of {}", at());
    let mut it = r.clone();
    for (i, g) in got.iter().enumerate() {
        ckeq!(cx, it.len(), got.len() - i, "remaining of {}", at());
        ckeq!(cx, it.next().as_ref(), Some(g), "item {} of {}", i, at());
    }
    ckeq!(cx, it.next(), None, "end of {}", at());
    ckeq!(cx, it.next(), None, "after the end of {}", at());
    let mapped: Vec<TextRange> = r.clone().map(|it| it.text_range()).collect();
    ckeq!(cx, mapped, got.iter().map(|it| it.text_range()).collect::<Vec<_>>(), "map of {}", at());
    match (&r, r.clone().map(|it| it.text_range())) {
        (TokenAtOffset::None, TokenAtOffset::None)
        | (TokenAtOffset::Single(_), TokenAtOffset::Single(_))
        | (TokenAtOffset::Between(..), TokenAtOffset::Between(..)) => {}
        _ => return Err(format!("map changes the shape of {}", at())),
    }
    Ok(())
}

fn contains(f: &Flat, id: usize, a: u64, b: u64) -> bool {
    f.start[id] <= a && b <= f.stop(id)
}

pub fn ranges_at(cx: &mut Ctx, tree: &Tree, id: usize, n: &SyntaxNode, a: u64, b: u64) -> R {
    let f = &tree.flat;
    let r = TextRange::new(ts(a), ts(b));
    let at = || format!("({:?}) in element {} of {} tree {}", r, id, tree.flavor, tree.term.show());
    let c = n.covering_element(r);
    let c_id = tree.locate(&c)?;
    ckeq!(cx, c.text_range(), rng_of(f, c_id), "range from covering_element{}", at());
    ck!(cx, c_id >= id && c_id < f.end[id] as usize, "covering_element{} leaves the subtree", at());
    ck!(cx, contains(f, c_id, a, b), "covering_element{} does not contain the range", at());
    ck!(cx, !f.kids[c_id].iter().any(|it| contains(f, *it as usize, a, b)), "covering_element{}: a child of {} contains the range", at(), c_id);
    // the way down must follow children that contain the range
    let d = n.child_or_token_at_range(r);
    let any = f.kids[id].iter().any(|it| contains(f, *it as usize, a, b));
    match &d {
        Some(d) => {
            let d_id = tree.locate(d)?;
            ckeq!(cx, d.text_range(), rng_of(f, d_id), "range from child_or_token_at_range{}", at());
            ckeq!(cx, f.parent(d_id), Some(id), "parent of child_or_token_at_range{}", at());
            if any {
                ck!(cx, contains(f, d_id, a, b), "child_or_token_at_range{} misses the child that contains it", at());
            } else {
                ck!(cx, f.start[d_id] <= b && a <= f.stop(d_id), "child_or_token_at_range{} does not touch", at());
            }
        }
        None => {
            ck!(cx, !any, "child_or_token_at_range{} finds nothing", at());
        }
    }
    Ok(())
}

pub fn c09(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = *rng.pick(&[12, 30, 60, 120]);
    let tree = setup(cx, rng, Pick::Any, budget)?;
    let f = &tree.flat;
    let max = if cx.tiny { 3 } else { 16 };
    for id in ids(rng, f, max) {
        if !f.is_node(id) {
            continue;
        }
        let n = tree.reach(rng, id)?.into_node().ok_or("not a node")?;
        let (s, e) = (f.start[id], f.stop(id));
        let offs: Vec<u64> = if e - s <= if cx.tiny { 4 } else { 60 } {
            (s..=e).collect()
        } else {
            let mut v = vec![s, e];
            for _ in 0..25 {
                v.push(s + rng.below((e - s) as usize + 1) as u64);
            }
            // boundaries
            for _ in 0..15 {
                let x = rng.range(id, f.end[id] as usize - 1);
                v.push(f.start[x]);
                v.push(f.stop(x));
            }
            v
        };
        for off in offs {
            lookups_at(cx, &tree, id, &n, off)?;
            cx.count("offsets");
        }
        for i in 0..if cx.tiny { 4 } else { 30 } {
            let (a, b) = if i % 3 == 0 {
                // exactly an element, or between the borders of two
                let x = rng.range(id, f.end[id] as usize - 1);
                let y = rng.range(id, f.end[id] as usize - 1);
                match rng.below(3) {
                    0 => (f.start[x], f.stop(x)),
                    1 => (f.start[x].min(f.start[y]), f.stop(x).max(f.stop(y))),
                    _ => (f.start[x].min(f.stop(y)), f.start[x].max(f.stop(y))),
                }
            } else {
                let a = s + rng.below((e - s) as usize + 1) as u64;
                let b = s + rng.below((e - s) as usize + 1) as u64;
                if rng.pct(25) {
                    (a, a)
                } else {
                    (a.min(b), a.max(b))
                }
            };
            ranges_at(cx, &tree, id, &n, a, b)?;
            cx.count("ranges");
        }
    }
    Ok(())
}

pub fn c09_special(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    let t = match which {
        0 => huge_term(rng, true),
        1 => term::wide(rng, 5000),
        _ => term::chain(rng, 600),
    };
    cx.sig(t.sig());
    cx.count("special shapes");
    cx.desc(|| format!("special shape {}: {} elements, {} bytes", which, t.count(), t.len()));
    let g = crate::build::hashcons(&t, &mut Default::default(), &mut Default::default()).into_node().unwrap();
    let root = if rng.bool() { SyntaxNode::new_root_mut(g) } else { SyntaxNode::new_root(g) };
    let tree = Tree { root, flat: Flat::new(&t), term: t.clone(), flavor: "big", keep: vec![], other: vec![] };
    let f = &tree.flat;
    for _ in 0..40 {
        let id = if rng.bool() { 0 } else { rng.below(f.n()) };
        if !f.is_node(id) {
            continue;
        }
        let n = tree.node_at(id)?;
        let len = f.len[id] as usize;
        let x = rng.range(id, f.end[id] as usize - 1);
        let y = rng.range(id, f.end[id] as usize - 1);
        let off = match rng.below(3) {
            0 => f.start[x],
            1 => f.stop(y),
            _ => f.start[id] + rng.below(len + 1) as u64,
        };
        lookups_at(cx, &tree, id, &n, off)?;
        let (a, b) = (f.start[x].min(f.stop(y)), f.start[x].max(f.stop(y)));
        ranges_at(cx, &tree, id, &n, a, b)?;
        ranges_at(cx, &tree, id, &n, f.start[x], f.stop(x))?;
        ranges_at(cx, &tree, id, &n, off, off)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C11

pub fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn eq_pair(cx: &mut Ctx, a: &SyntaxElement, b: &SyntaxElement, want: bool, what: &dyn Fn() -> String) -> R {
    ckeq!(cx, a == b, want, "equality of {}", what());
    ckeq!(cx, b == a, want, "equality (other way round) of {}", what());
    ckeq!(cx, a != b, !want, "inequality of {}", what());
    if want {
        ck!(cx, hash_of(a) == hash_of(b), "equal but different hash: {}", what());
    }
    match (a, b) {
        (NodeOrToken::Node(a), NodeOrToken::Node(b)) => {
            ckeq!(cx, a == b, want, "node equality of {}", what());
            if want {
                ck!(cx, hash_of(a) == hash_of(b), "equal nodes but different hash: {}", what());
            }
        }
        (NodeOrToken::Token(a), NodeOrToken::Token(b)) => {
            ckeq!(cx, a == b, want, "token equality of {}", what());
            if want {
                ck!(cx, hash_of(a) == hash_of(b), "equal tokens but different hash: {}", what());
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn c11(cx: &mut Ctx, rng: &mut Rng) -> R {
    if rng.pct(40) {
        return crate::world::c11_mut(cx, rng);
    }
    let budget = *rng.pick(&[10, 25, 50]);
    let tree = setup(cx, rng, Pick::Any, budget)?;
    let f = &tree.flat;
    // several handles per element, by different routes and at different times
    let mut handles: Vec<(usize, SyntaxElement)> = Vec::new();
    let per = if cx.tiny { 2 } else { 3 };
    let sel = ids(rng, f, if cx.tiny { 5 } else { 30 });
    for id in sel {
        for _ in 0..rng.range(1, per) {
            let e = tree.reach(rng, id)?;
            handles.push((id, e));
        }
        if rng.pct(20) {
            let i = rng.below(handles.len());
            handles.swap_remove(i);
        }
    }
    for k in &tree.keep {
        handles.push((tree.locate(k)?, k.clone()));
    }
    let show = |a: usize, b: usize| format!("elements {} and {} of {} tree {}", a, b, tree.flavor, tree.term.show());
    for (i, (x, a)) in handles.iter().enumerate() {
        for (y, b) in &handles[i..] {
            if x == y {
                eq_pair(cx, a, b, true, &|| show(*x, *y))?;
                cx.count("same position");
            } else if f.len[*x] > 0 || f.len[*y] > 0 {
                eq_pair(cx, a, b, false, &|| show(*x, *y))?;
                cx.count("different position");
            } else {
                // unspecified, but must be symmetric and consistent with hashing
                let e = a == b;
                ckeq!(cx, b == a, e, "symmetry for {}", show(*x, *y));
                ck!(cx, !e || hash_of(a) == hash_of(b), "equal but different hash: {}", show(*x, *y));
                ck!(cx, !e || a.as_node().is_some() == b.as_node().is_some(), "a node equals a token: {}", show(*x, *y));
            }
        }
    }
    // as keys of a hash map
    let mut map = std::collections::HashMap::new();
    for (x, a) in &handles {
        if f.len[*x] > 0 {
            if let Some(prev) = map.insert(a.clone(), *x) {
                ckeq!(cx, prev, *x, "hash map key collision in {}", tree.term.show());
            }
        }
    }
    // a tree built separately
    let g2 = crate::build::node_of(&tree.term);
    let t2 = if rng.bool() { SyntaxNode::new_root(g2) } else { SyntaxNode::new_root_mut(g2) };
    let tree2 = Tree { root: t2, flat: Flat::new(&tree.term), term: tree.term.clone(), flavor: "other", keep: vec![], other: vec![] };
    for (x, a) in handles.iter().take(12) {
        let b = tree2.at(*x)?;
        eq_pair(cx, a, &b, false, &|| format!("element {} of two separately built trees {}", x, tree.term.show()))?;
    }
    // a handle that is dropped and obtained again still equals one that was kept
    for (x, a) in handles.iter().take(10) {
        let again = tree.reach(rng, *x)?;
        eq_pair(cx, a, &again, true, &|| show(*x, *x))?;
        eq_pair(cx, a, &a.clone(), true, &|| show(*x, *x))?;
    }
    Ok(())
}
