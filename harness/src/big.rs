//! Parents with more children than sixteen bits can count, and texts to match.
use std::{collections::HashMap, sync::Arc};

use rowan::{
    api,
    ast::SyntaxNodePtr,
    cursor::{SyntaxElement, SyntaxNode},
    GreenNode, GreenNodeBuilder, GreenToken, NodeCache, NodeOrToken, TextRange,
};

use crate::{
    build::{sk, GreenEl},
    ck, ckeq, misc, nav,
    rng::Rng,
    term::{Flat, T},
    text::{self, Odd, Raw, View},
    tree::{ts, Tree},
    util::{Ctx, R},
};

#[derive(Clone, PartialEq, Debug)]
struct Item {
    kind: u16,
    node: bool,
    text: String,
    id: usize,
}

fn item(i: usize) -> Item {
    let text = if i % 11 == 3 { String::new() } else { format!("{:x}é", i) };
    Item { kind: (i * 7 % 65_536) as u16, node: i % 5 == 0, text, id: i }
}

fn green(it: &Item) -> GreenEl {
    let tok = |k: u16| GreenToken::new(sk(k), &it.text);
    if it.node {
        NodeOrToken::Node(GreenNode::new(sk(it.kind), [NodeOrToken::Token(tok(9))]))
    } else {
        NodeOrToken::Token(tok(it.kind))
    }
}

fn len_of(it: &Item) -> u64 {
    it.text.len() as u64
}

fn size(cx: &Ctx, rng: &mut Rng) -> usize {
    if cx.tiny {
        20 + rng.below(10)
    } else {
        65_600 + rng.below(4000)
    }
}

fn make(n: usize) -> (Vec<Item>, GreenNode) {
    let v: Vec<Item> = (0..n).map(item).collect();
    let g = GreenNode::new(sk(1), v.iter().map(green).collect::<Vec<_>>());
    (v, g)
}

/// Positions worth a look among `n`.
fn spots(rng: &mut Rng, n: usize, more: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 1, 2, 127, 128, 255, 256, 257, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537].into_iter().filter(|it| *it < n).collect();
    v.extend([n - 1, n - 2]);
    for _ in 0..more {
        v.push(rng.below(n));
        v.push(n - 1 - rng.below(n.min(70)));
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn starts(v: &[Item]) -> Vec<u64> {
    let mut at = 0;
    let mut s: Vec<u64> = v
        .iter()
        .map(|it| {
            let a = at;
            at += len_of(it);
            a
        })
        .collect();
    s.push(at);
    s
}

fn range(s: &[u64], v: &[Item], i: usize) -> TextRange {
    TextRange::new(ts(s[i]), ts(s[i] + len_of(&v[i])))
}

fn same_green_list(cx: &mut Ctx, g: &GreenNode, v: &[Item], what: &str) -> R {
    ckeq!(cx, g.children().len(), v.len(), "number of children {}", what);
    let mut len = 0;
    for (i, (c, it)) in g.children().zip(v).enumerate() {
        let ok = c.kind().0 == it.kind && c.as_node().is_some() == it.node && u64::from(u32::from(c.text_len())) == len_of(it) && c.to_string() == it.text;
        ck!(cx, ok, "child {} {} is {:?} instead of {:?}", i, what, c.to_string(), it);
        len += len_of(it);
    }
    ckeq!(cx, u64::from(u32::from(g.text_len())), len, "length of the text {}", what);
    Ok(())
}

/// Is `e` the `i`th child of `n`, in every respect?
fn is_child(cx: &mut Ctx, n: &SyntaxNode, v: &[Item], s: &[u64], i: usize, e: &SyntaxElement, what: &str) -> R {
    let it = &v[i];
    ckeq!(cx, e.kind().0, it.kind, "kind of child {} {}", i, what);
    ckeq!(cx, e.as_node().is_some(), it.node, "sort of child {} {}", i, what);
    ckeq!(cx, e.to_string(), it.text, "text of child {} {}", i, what);
    ckeq!(cx, e.index(), i, "index of child {} {}", i, what);
    ckeq!(cx, e.text_range(), range(s, v, i), "range of child {} {}", i, what);
    ck!(cx, e.parent().as_ref() == Some(n), "parent of child {} {}", i, what);
    if let NodeOrToken::Node(c) = e {
        let t = c.first_token().ok_or_else(|| format!("child {} {} has no token", i, what))?;
        ckeq!(cx, t.text_range(), range(s, v, i), "range of the token below child {} {}", i, what);
        ckeq!(cx, t.index(), 0, "index of the token below child {} {}", i, what);
    }
    Ok(())
}

pub fn c01(cx: &mut Ctx, rng: &mut Rng) -> R {
    // nodes opened at checkpoints with very many elements pending
    let n = size(cx, rng);
    cx.sig(n as u64);
    cx.count("wide nodes");
    cx.desc(|| format!("{} pending elements", n));
    let mut b = rowan::GreenNodeBuilder::new();
    b.start_node(sk(1));
    let at = [0usize, n / 2, n - 8, n - 2];
    let mut want: Vec<(u16, String, usize)> = Vec::new();
    let mut cps = Vec::new();
    for i in 0..n {
        if at.contains(&i) {
            cps.push((b.checkpoint(), i));
        }
        let it = item(i);
        b.token(sk(it.kind), &it.text);
        want.push((it.kind, it.text, 0));
    }
    // the innermost first
    while let Some((cp, i)) = cps.pop() {
        b.start_node_at(cp, sk(50_000 + cps.len() as u16));
        b.token(sk(3), "end");
        b.finish_node();
        let mut text: String = want[i..].iter().map(|it| it.1.as_str()).collect();
        text.push_str("end");
        let kids = want.len() - i + 1;
        want.truncate(i);
        want.push((50_000 + cps.len() as u16, text, kids));
    }
    b.finish_node();
    let g = b.finish();
    ckeq!(cx, g.children().len(), want.len(), "number of children of {} pending elements", n);
    for (i, (c, (k, t, kids))) in g.children().zip(&want).enumerate() {
        ckeq!(cx, c.kind().0, *k, "kind of child {}", i);
        ck!(cx, c.to_string() == *t, "text of child {}", i);
        ckeq!(cx, c.as_node().map_or(0, |it| it.children().len()), *kids, "number of children of child {}", i);
    }
    let mut cur = g;
    for i in 0..4 {
        let kid = cur.children().find(|it| it.as_node().is_some()).ok_or("no node inside")?;
        let kid = kid.into_node().unwrap().to_owned();
        let want = if i == 3 { 3 } else { at[i + 1] - at[i] + 2 };
        ckeq!(cx, kid.children().len(), want, "number of children of level {}", i);
        cur = kid;
    }
    Ok(())
}

pub fn c03(cx: &mut Ctx, rng: &mut Rng) -> R {
    let n = size(cx, rng);
    cx.sig(n as u64);
    cx.count("wide nodes");
    cx.desc(|| format!("{} children", n));
    let (mut v, g) = make(n);
    same_green_list(cx, &g, &v, "of a wide node")?;
    let at = |c: rowan::NodeOrToken<&rowan::GreenNodeData, &rowan::GreenTokenData>| (c.kind().0, c.to_string());
    for i in spots(rng, n, 10) {
        let want = (v[i].kind, v[i].text.clone());
        ckeq!(cx, g.children().nth(i).map(at), Some(want.clone()), "nth {} of {}", i, n);
        ckeq!(cx, g.children().nth_back(n - 1 - i).map(at), Some(want.clone()), "nth_back {} of {}", n - 1 - i, n);
        ckeq!(cx, g.children().rev().nth(n - 1 - i).map(at), Some(want.clone()), "rev nth {} of {}", n - 1 - i, n);
        let mut it = g.children();
        it.nth(i);
        ckeq!(cx, it.len(), n - 1 - i, "children left after {} of {}", i + 1, n);
        ckeq!(cx, it.count(), n - 1 - i, "children counted after {} of {}", i + 1, n);
    }
    ckeq!(cx, g.children().last().map(at), Some((v[n - 1].kind, v[n - 1].text.clone())), "last of {}", n);
    ckeq!(cx, g.children().fold(0u64, |a, c| a + u64::from(u32::from(c.text_len()))), *starts(&v).last().unwrap(), "folded length");
    let (_, h) = make(n);
    ck!(cx, g == h, "equal wide nodes differ");
    ckeq!(cx, crate::nav::hash_of(&g), crate::nav::hash_of(&h), "hash of equal wide nodes");
    let i = n - 1 - rng.below(5);
    v[i].kind ^= 1;
    let h = GreenNode::new(sk(1), v.iter().map(green).collect::<Vec<_>>());
    ck!(cx, g != h, "wide nodes that differ at {} are equal", i);
    let h = GreenNode::new(sk(1), v[..n - 1].iter().map(green).collect::<Vec<_>>());
    ck!(cx, g != h, "wide nodes of different width are equal");
    Ok(())
}

pub fn c04(cx: &mut Ctx, rng: &mut Rng) -> R {
    let n = size(cx, rng);
    cx.sig(n as u64);
    cx.count("wide nodes");
    cx.desc(|| format!("{} children", n));
    let (v, g) = make(n);
    let root = SyntaxNode::new_root(g.clone());
    for i in spots(rng, n, 1) {
        if rng.bool() && i != 65_536 && i != n - 1 {
            continue;
        }
        let new = Item { kind: v[i].kind, text: "new".into(), node: v[i].node, id: 0 };
        let mut w = v.clone();
        w[i] = new.clone();
        let e = root.children_with_tokens().nth(i).ok_or("too few children")?;
        let by = match (&e, green(&new)) {
            (NodeOrToken::Node(e), NodeOrToken::Node(g)) => e.replace_with(g),
            (NodeOrToken::Token(e), NodeOrToken::Token(g)) => e.replace_with(g),
            _ => return Err(format!("child {} of {} is of the wrong sort", i, n)),
        };
        same_green_list(cx, &by, &w, "of a wide node with one replaced through a handle")?;
        same_green_list(cx, &g.replace_child(i, green(&new)), &w, "of a wide node with one replaced")?;
        let mut w = v.clone();
        w.insert(i, new.clone());
        same_green_list(cx, &g.insert_child(i, green(&new)), &w, "of a wide node with one inserted")?;
        let mut w = v.clone();
        w.remove(i);
        same_green_list(cx, &g.remove_child(i), &w, "of a wide node with one removed")?;
        let j = (i + rng.below(4)).min(n);
        let mut w = v.clone();
        w.splice(i..j, [new.clone(), new.clone()]);
        same_green_list(cx, &g.splice_children(i..j, [green(&new), green(&new)]), &w, "of a wide node spliced")?;
    }
    // many at once, from iterators that know how many there are, roughly or not at all
    let many: Vec<Item> = (0..*rng.pick(&[300, 5000, 70_000])).map(item).take(if cx.tiny { 3 } else { usize::MAX }).collect();
    let (a, b) = (rng.below(n + 1), rng.below(n + 1));
    let (a, b) = (a.min(b), a.max(b));
    let mut w = v.clone();
    w.splice(a..b, many.clone());
    let els = || many.iter().map(green);
    let by = match rng.below(4) {
        0 => g.splice_children(a..b, els().collect::<Vec<_>>()),
        1 => g.splice_children(a..b, els().filter(|_| true)),
        2 => {
            let mut it = els();
            g.splice_children(a..b, std::iter::from_fn(move || it.next()))
        }
        _ => g.splice_children(a..b, els().take(many.len() / 2).chain(els().skip(many.len() / 2).filter(|_| true))),
    };
    same_green_list(cx, &by, &w, "of a wide node with many spliced in")?;
    same_green_list(cx, &g, &v, "of the original wide node")
}

fn roots(g: &GreenNode) -> [(SyntaxNode, &'static str); 2] {
    [(SyntaxNode::new_root(g.clone()), "of a wide immutable node"), (SyntaxNode::new_root_mut(g.clone()), "of a wide mutable node")]
}

pub fn c07(cx: &mut Ctx, rng: &mut Rng) -> R {
    let n = size(cx, rng);
    cx.sig(n as u64);
    cx.count("wide nodes");
    cx.desc(|| format!("{} children", n));
    let (v, g) = make(n);
    let s = starts(&v);
    for (root, what) in roots(&g) {
        let mut i = 0;
        for e in root.children_with_tokens() {
            ck!(cx, i < n, "too many children {}", what);
            ck!(cx, e.index() == i && e.kind().0 == v[i].kind, "child {} {} is {:?} at {}", i, what, e.kind(), e.index());
            if !root.is_mutable() || i % 1000 == 0 {
                ckeq!(cx, e.text_range(), range(&s, &v, i), "range of child {} {}", i, what);
            }
            i += 1;
        }
        ckeq!(cx, i, n, "number of children {}", what);
        let got: Vec<usize> = root.children().map(|it| it.index()).collect();
        let want: Vec<usize> = (0..n).filter(|it| v[*it].node).collect();
        ck!(cx, got == want, "indices of the nodes {}", what);
        let k = v[n - 1].kind;
        for at in [0, 1, n / 2, n - 40] {
            let want: Vec<usize> = (at..n).filter(|it| v[*it].kind == k || v[*it].kind & 0xFF == 3).collect();
            let mut it = root.children_with_tokens();
            if at > 0 {
                it.nth(at - 1);
            }
            if at > 0 && rng.bool() {
                it = it.clone();
            }
            let got: Vec<usize> = it.by_kind(|it| it.0 == k || it.0 & 0xFF == 3).map(|it| it.index()).collect();
            ck!(cx, got == want, "indices by kind from {} {}: {} instead of {}", at, what, got.len(), want.len());
        }
    }
    Ok(())
}

pub fn c05(cx: &mut Ctx, rng: &mut Rng) -> R {
    let n = size(cx, rng);
    cx.sig(n as u64);
    cx.count("wide nodes");
    cx.desc(|| format!("{} children", n));
    let (v, g) = make(n);
    let s = starts(&v);
    for (root, what) in roots(&g) {
        for i in spots(rng, n, 6) {
            let e = root.children_with_tokens().nth(i).ok_or("too few children")?;
            is_child(cx, &root, &v, &s, i, &e, what)?;
            match e.next_sibling_or_token() {
                Some(x) => is_child(cx, &root, &v, &s, i + 1, &x, what)?,
                None => ckeq!(cx, i, n - 1, "last child {}", what),
            }
            match e.prev_sibling_or_token() {
                Some(x) => is_child(cx, &root, &v, &s, i - 1, &x, what)?,
                None => ckeq!(cx, i, 0, "first child {}", what),
            }
            let k = v[(i + 300).min(n - 1)].kind;
            let next = (i + 1..n).find(|it| v[*it].kind == k);
            match (e.next_sibling_or_token_by_kind(&|it| it.0 == k), next) {
                (Some(x), Some(at)) => is_child(cx, &root, &v, &s, at, &x, what)?,
                (a, b) => ck!(cx, a.is_none() && b.is_none(), "next of kind {} after {} {}", k, i, what),
            }
            if let NodeOrToken::Node(e) = &e {
                let next = (i + 1..n).find(|it| v[*it].node);
                match (e.next_sibling(), next) {
                    (Some(x), Some(at)) => is_child(cx, &root, &v, &s, at, &x.into(), what)?,
                    (a, b) => ck!(cx, a.is_none() && b.is_none(), "next node after {} {}", i, what),
                }
                let prev = (0..i).rev().find(|it| v[*it].node);
                match (e.prev_sibling(), prev) {
                    (Some(x), Some(at)) => is_child(cx, &root, &v, &s, at, &x.into(), what)?,
                    (a, b) => ck!(cx, a.is_none() && b.is_none(), "previous node before {} {}", i, what),
                }
            }
        }
        let l = root.last_child_or_token().ok_or("no last child")?;
        is_child(cx, &root, &v, &s, n - 1, &l, what)?;
        let at = (0..n).rev().find(|it| v[*it].node).unwrap();
        is_child(cx, &root, &v, &s, at, &root.last_child().ok_or("no last child")?.into(), what)?;
        let at = (0..n).find(|it| v[*it].kind & 0x1FF == 0x1FB);
        match (root.first_child_or_token_by_kind(&|it| it.0 & 0x1FF == 0x1FB), at) {
            (Some(x), Some(at)) => is_child(cx, &root, &v, &s, at, &x, what)?,
            (a, b) => ck!(cx, a.is_none() && b.is_none(), "first of a kind {}", what),
        }
        // lookups by position
        for i in spots(rng, n, 4) {
            if len_of(&v[i]) > 0 {
                let x = root.child_or_token_at_range(range(&s, &v, i)).ok_or("nothing found")?;
                is_child(cx, &root, &v, &s, i, &x, what)?;
            }
        }
    }
    Ok(())
}

pub fn c11(cx: &mut Ctx, rng: &mut Rng) -> R {
    // one green element at very many places: distances of any power of two make no two of them equal
    let n = size(cx, rng);
    cx.sig(n as u64);
    cx.count("wide nodes");
    let w = *rng.pick(&[1usize, 2, 3, 256, 257]);
    cx.desc(|| format!("{} times one child of {} bytes", n, w));
    let leaf = GreenNode::new(sk(5), [NodeOrToken::Token(GreenToken::new(sk(6), &"x".repeat(w)))]);
    let g = GreenNode::new(sk(1), vec![NodeOrToken::Node(leaf); n]);
    for (root, what) in roots(&g) {
        let at: Vec<usize> = (0..17).map(|p| 1usize << p).chain([0, n - 1]).filter(|it| *it < n).collect();
        let a: Vec<SyntaxElement> = at.iter().map(|i| root.children_with_tokens().nth(*i).unwrap()).collect();
        let b: Vec<SyntaxElement> = at.iter().map(|i| root.children_with_tokens().nth(*i).unwrap()).collect();
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                ckeq!(cx, x == y, at[i] == at[j], "equality of children {} and {} {}", at[i], at[j], what);
                if i == j {
                    ckeq!(cx, crate::nav::hash_of(x), crate::nav::hash_of(y), "hash of child {} {}", at[i], what);
                }
                let (x, y) = (x.as_node().unwrap().first_token(), y.as_node().unwrap().first_token());
                ckeq!(cx, x == y, at[i] == at[j], "equality of the tokens below children {} and {} {}", at[i], at[j], what);
            }
        }
    }
    Ok(())
}

/// Edits of a wide node, with handles held around the places where narrow counters wrap.
pub fn edits(cx: &mut Ctx, rng: &mut Rng) -> R {
    let n = size(cx, rng);
    cx.sig(n as u64);
    cx.count("wide nodes");
    let (mut v, g) = make(n);
    let mut next_id = n;
    let outer = rng.bool();
    let top = if outer {
        SyntaxNode::new_root_mut(GreenNode::new(sk(2), [NodeOrToken::Token(GreenToken::new(sk(3), "before")), NodeOrToken::Node(g)]))
    } else {
        SyntaxNode::new_root_mut(g)
    };
    let root = if outer { top.first_child().ok_or("no child")? } else { top.clone() };
    let base = if outer { 6 } else { 0 };
    let mut held: Vec<(usize, SyntaxElement)> = Vec::new();
    for i in spots(rng, n, 4) {
        held.push((v[i].id, root.children_with_tokens().nth(i).ok_or("too few children")?));
    }
    let mut gone: HashMap<usize, Item> = HashMap::new();
    let ops = if cx.thorough { 60 } else { 16 };
    let mut log = Vec::new();
    for _ in 0..ops {
        match rng.below(3) {
            0 if !held.is_empty() => {
                // detach through a handle that is held
                let k = rng.below(held.len());
                let id = held[k].0;
                if gone.contains_key(&id) {
                    continue;
                }
                held[k].1.detach();
                let at = v.iter().position(|it| it.id == id).unwrap();
                gone.insert(id, v.remove(at));
                log.push(format!("detach {}", at));
            }
            1 => {
                // splice around a special place
                let mut s = spots(rng, v.len(), 2);
                rng.shuffle(&mut s);
                let a = s[0];
                let b = (a + rng.below(4)).min(v.len());
                let mut new = Vec::new();
                let mut ins: Vec<SyntaxElement> = Vec::new();
                for _ in 0..rng.below(4) {
                    let it = Item { id: next_id, ..item(next_id) };
                    next_id += 1;
                    let e: SyntaxElement = match green(&it) {
                        NodeOrToken::Node(g) => SyntaxNode::new_root_mut(g).into(),
                        t => {
                            let p = SyntaxNode::new_root_mut(GreenNode::new(sk(0), [t]));
                            let t = p.first_child_or_token().ok_or("no child")?;
                            t.detach();
                            t
                        }
                    };
                    if rng.bool() {
                        held.push((it.id, e.clone()));
                    }
                    new.push(it);
                    ins.push(e);
                }
                log.push(format!("splice {}..{} with {}", a, b, new.len()));
                root.splice_children(a..b, ins);
                for it in v.splice(a..b, new) {
                    gone.insert(it.id, it);
                }
            }
            _ => {
                // put something that was detached back
                let Some((id, e)) = held.iter().find(|it| gone.contains_key(&it.0)).cloned() else {
                    continue;
                };
                if e.parent().is_some() {
                    return Err(format!("a detached element has a parent, after {:?}", log));
                }
                let mut s = spots(rng, v.len(), 2);
                s.push(v.len());
                let a = *rng.pick(&s);
                log.push(format!("put back at {}", a));
                root.splice_children(a..a, [e]);
                v.insert(a, gone.remove(&id).unwrap());
            }
        }
        cx.count("operations");
        let s: Vec<u64> = starts(&v).into_iter().map(|it| it + base).collect();
        let pos: HashMap<usize, usize> = v.iter().enumerate().map(|(i, it)| (it.id, i)).collect();
        for (id, e) in &held {
            let r = match pos.get(id) {
                Some(i) => is_child(cx, &root, &v, &s, *i, e, "of an edited wide node"),
                None => (|| {
                    ck!(cx, e.parent().is_none(), "a removed child has a parent");
                    ckeq!(cx, e.to_string(), gone[id].text, "text of a removed child");
                    ckeq!(cx, e.text_range(), TextRange::up_to(ts(len_of(&gone[id]))), "range of a removed child");
                    Ok(())
                })(),
            };
            r.map_err(|e| format!("{}, after {:?}", e, log))?;
        }
        ckeq!(cx, u64::from(u32::from(root.text_range().len())), s[v.len()] - base, "length of the text after {:?}", log);
    }
    cx.desc(|| format!("{} children: {}", n, log.join(", ")));
    let green = root.green().into_owned();
    same_green_list(cx, &green, &v, "of an edited wide node").map_err(|e| format!("{}, after {:?}", e, log))?;
    let mut i = 0;
    for e in root.children_with_tokens() {
        ck!(cx, i < v.len() && e.index() == i && e.kind().0 == v[i].kind, "child {} of an edited wide node, after {:?}", i, log);
        i += 1;
    }
    ckeq!(cx, i, v.len(), "number of children of an edited wide node");
    Ok(())
}

pub fn c14(cx: &mut Ctx, rng: &mut Rng) -> R {
    let n = size(cx, rng);
    cx.sig(n as u64);
    cx.count("wide nodes");
    cx.desc(|| format!("{} children", n));
    let (v, g) = make(n);
    let s = starts(&v);
    let root = SyntaxNode::new_root(g.clone());
    for i in spots(rng, n, 3) {
        let Some(NodeOrToken::Node(e)) = root.children_with_tokens().nth(i) else {
            continue;
        };
        let m = e.clone_for_update();
        let top = m.parent().ok_or("the mutable clone has no parent")?;
        is_child(cx, &top, &v, &s, i, &m.clone().into(), "of a mutable clone of a wide node")?;
        let sub = e.clone_subtree();
        ckeq!(cx, sub.to_string(), v[i].text, "text of a copied child");
        m.detach();
        ckeq!(cx, top.children_with_tokens().nth(i).map(|it| it.kind().0), v.get(i + 1).map(|it| it.kind), "kind of the child after a detached one");
        let mut w = v.clone();
        w.remove(i);
        if rng.pct(20) {
            same_green_list(cx, &top.green().into_owned(), &w, "of an edited clone")?;
        }
    }
    same_green_list(cx, &g, &v, "of the source")?;
    ck!(cx, root.children_with_tokens().zip(&v).all(|(a, b)| a.kind().0 == b.kind), "children of the source");
    Ok(())
}

pub fn c15(cx: &mut Ctx, rng: &mut Rng) -> R {
    let n = size(cx, rng);
    cx.sig(n as u64);
    cx.count("wide nodes");
    let (v, g) = make(n);
    let root = SyntaxNode::new_root_mut(g);
    let kind = v[n - 3].kind;
    let tokens = rng.bool();
    // a removal copies the whole node, so few are removed: the last, and every one of one low byte
    let hit = |it: &Item| it.id + 100 > n || it.id % 4096 < 2;
    cx.desc(|| format!("{} children, tokens: {}", n, tokens));
    let mut seen = Vec::new();
    if tokens {
        for (i, e) in root.children_with_tokens().enumerate() {
            ck!(cx, i < n && e.kind().0 == v[i].kind, "child {} while removing", i);
            seen.push(i);
            if hit(&v[i]) {
                e.detach();
            }
        }
        ckeq!(cx, seen.len(), n, "number of children seen while removing");
    } else {
        let want: Vec<usize> = (0..n).filter(|it| v[*it].node).collect();
        for (i, e) in root.children().enumerate() {
            ck!(cx, i < want.len() && e.kind().0 == v[want[i]].kind, "child node {} while removing", i);
            seen.push(want[i]);
            if hit(&v[want[i]]) {
                e.detach();
            }
        }
        ckeq!(cx, seen.len(), want.len(), "number of child nodes seen while removing");
    }
    let left: Vec<Item> = v.iter().filter(|it| !(hit(it) && (tokens || it.node))).cloned().collect();
    same_green_list(cx, &root.green().into_owned(), &left, "left of a wide node")?;
    // by kind
    let hits = left.iter().filter(|it| it.kind == kind || it.kind & 0x3FF == 5).count();
    let mut got = 0;
    for e in root.children_with_tokens().by_kind(|it| it.0 == kind || it.0 & 0x3FF == 5) {
        got += 1;
        e.detach();
    }
    ckeq!(cx, got, hits, "number of children of some kind while removing");
    let left: Vec<Item> = left.into_iter().filter(|it| !(it.kind == kind || it.kind & 0x3FF == 5)).collect();
    same_green_list(cx, &root.green().into_owned(), &left, "left of a wide node")
}

/// Twice through one cache: more different tokens and nodes than narrow counters can count, and
/// more than any table starts with.
pub fn c02(cx: &mut Ctx, rng: &mut Rng) -> R {
    let chunk = if cx.tiny { 5 } else { 1000 };
    let chunks = if cx.tiny {
        5
    } else if cx.thorough && !cfg!(feature = "plainalloc") {
        2600
    } else {
        140
    };
    let n = chunk * chunks;
    cx.sig(n as u64);
    cx.count("large caches");
    cx.desc(|| format!("{} tokens and nodes through one cache", n));
    let text = |i: usize| format!("{}", i / 2);
    let kind = |i: usize| sk((i % 2 * 300 + 1) as u16);
    let mut cache = NodeCache::default();
    // the tree is kept, so that no address is used twice
    let mut kept: Vec<GreenNode> = Vec::new();
    let mut at: Vec<[usize; 2]> = vec![[0; 2]; n];
    for round in 0..2 {
        let mut order: Vec<usize> = (0..chunks).collect();
        if round == 1 {
            rng.shuffle(&mut order);
        }
        for c in order {
            let mut b = GreenNodeBuilder::with_cache(&mut cache);
            b.start_node(sk(9));
            for i in c * chunk..(c + 1) * chunk {
                b.start_node(kind(i + 1));
                b.token(kind(i), &text(i));
                b.finish_node();
            }
            b.finish_node();
            let g = b.finish();
            ckeq!(cx, g.children().len(), chunk, "children of a tree built through a large cache");
            for (i, it) in (c * chunk..).zip(g.children()) {
                let node = it.into_node().ok_or("not a node")?;
                let tok = node.children().next().and_then(|it| it.into_token()).ok_or("not a token")?;
                if node.kind() != kind(i + 1) || tok.kind() != kind(i) || tok.text() != text(i) || node.children().len() != 1 {
                    return Err(format!(
                        "round {}: a large cache hands out {:?} of {:?} for {:?} of {:?} {:?}",
                        round,
                        node.kind(),
                        tok,
                        kind(i + 1),
                        kind(i),
                        text(i)
                    ));
                }
                let got = [node as *const _ as *const u8 as usize, tok as *const _ as *const u8 as usize];
                if round == 0 {
                    at[i] = got;
                } else {
                    ck!(cx, got[0] == at[i][0], "equal node {} of {} is not shared by a large cache", i, n);
                    ck!(cx, got[1] == at[i][1], "equal token {} of {} is not shared by a large cache", i, n);
                }
            }
            kept.push(g);
        }
    }
    for (i, it) in at.iter().enumerate() {
        let (n, t) = (it[0], it[1]);
        ck!(cx, i == 0 || (n != at[i - 1][0] && t != at[i - 1][1]), "different elements are one allocation");
    }
    let mut all: Vec<usize> = at.iter().flatten().copied().collect();
    all.sort_unstable();
    all.dedup();
    ckeq!(cx, all.len(), 2 * n, "different allocations behind different elements");
    for k in 0..20 {
        let c = k * chunks / 20;
        let want: String = (c * chunk..(c + 1) * chunk).map(text).collect();
        ck!(cx, kept[c].to_string() == want, "a tree built earlier through a large cache has changed");
    }
    cx.add("cached elements", 2 * n as u64);
    Ok(())
}

/// The same as a reference tree with two syntax trees.
fn wide(cx: &mut Ctx, rng: &mut Rng) -> [Tree; 2] {
    let n = size(cx, rng);
    cx.sig(n as u64);
    cx.count("wide nodes");
    cx.desc(|| format!("{} children", n));
    let (v, g) = make(n);
    let kid = |it: &Item| -> Arc<T> {
        Arc::new(match it.node {
            true => T::N(it.kind, vec![Arc::new(T::K(9, it.text.as_str().into()))]),
            false => T::K(it.kind, it.text.as_str().into()),
        })
    };
    let term = Arc::new(T::N(1, v.iter().map(kid).collect()));
    let mk = |root: SyntaxNode, flavor| Tree { root, flat: Flat::new(&term), term: term.clone(), flavor, keep: vec![], other: vec![] };
    [mk(SyntaxNode::new_root(g.clone()), "immutable"), mk(SyntaxNode::new_root_mut(g), "mutable")]
}

/// Elements worth a look.
fn elements(rng: &mut Rng, f: &Flat, more: usize) -> Vec<usize> {
    spots(rng, f.kids[0].len(), more).into_iter().map(|it| f.kids[0][it] as usize).collect()
}

pub fn c08(cx: &mut Ctx, rng: &mut Rng) -> R {
    for tree in &wide(cx, rng) {
        nav::c08_at(cx, rng, tree, 0)?;
    }
    Ok(())
}

pub fn c09(cx: &mut Ctx, rng: &mut Rng) -> R {
    for tree in &wide(cx, rng) {
        let f = &tree.flat;
        let v = elements(rng, f, 8);
        for (i, &id) in v.iter().enumerate() {
            let (a, b) = (f.start[id], f.stop(id));
            if i % 3 == 0 {
                nav::lookups_at(cx, tree, 0, &tree.root, if rng.bool() { a } else { b })?;
            }
            nav::ranges_at(cx, tree, 0, &tree.root, a, b)?;
            nav::ranges_at(cx, tree, 0, &tree.root, b, b)?;
            let o = *rng.pick(&v);
            nav::ranges_at(cx, tree, 0, &tree.root, a.min(f.start[o]), b.max(f.stop(o)))?;
        }
    }
    Ok(())
}

pub fn c10(cx: &mut Ctx, rng: &mut Rng) -> R {
    for tree in &wide(cx, rng) {
        let mut v = View { text: tree.root.text(), s: tree.flat.text_of(0), how: format!("wide {}", tree.flavor) };
        text::check_view(cx, rng, &v)?;
        v = text::slice(rng, &v);
        text::check_view(cx, rng, &v)?;
    }
    Ok(())
}

pub fn c20(cx: &mut Ctx, rng: &mut Rng) -> R {
    let [tree, _] = &wide(cx, rng);
    let f = &tree.flat;
    let root = api::SyntaxNode::<Raw>::from(tree.root.clone());
    let twin = api::SyntaxNode::<Raw>::new_root(tree.root.green().into_owned());
    for id in elements(rng, f, 20) {
        let id = if f.is_node(id) { id } else { continue };
        let n = api::SyntaxNode::<Raw>::from(tree.node_at(id)?);
        let p = SyntaxNodePtr::new(&n);
        // an empty node shares its range with the border of its neighbours only
        let back = p.to_node(&root);
        ckeq!(cx, tree.locate(&crate::tree::el(&back.clone().into()))?, id, "element a pointer of a wide tree resolves to");
        ck!(cx, back == n, "resolved node differs");
        let there = p.try_to_node(&twin).ok_or("a pointer does not resolve in an equal tree")?;
        ck!(cx, there.kind() == n.kind() && there.text_range() == n.text_range() && there.index() == n.index(), "resolved node in an equal tree");
    }
    Ok(())
}

pub fn c21(cx: &mut Ctx, rng: &mut Rng) -> R {
    for tree in &wide(cx, rng) {
        // edits remove one child after the other, and each removal copies the node
        if tree.root.is_mutable() {
            misc::typed_node(cx, rng, &tree.root)?;
        }
        misc::ast_at(cx, tree, 0, &tree.root)?;
        let v = elements(rng, &tree.flat, 0);
        for id in [v[v.len() - 1], *rng.pick(&v)] {
            misc::typed_element(cx, &tree.at(id)?)?;
        }
    }
    Ok(())
}

pub fn c22(cx: &mut Ctx, rng: &mut Rng) -> R {
    for tree in &wide(cx, rng) {
        text::check_one::<Odd>(cx, rng, tree, &crate::tree::el(&tree.root), 0)?;
        for id in elements(rng, &tree.flat, 0) {
            text::check_one::<Raw>(cx, rng, tree, &tree.at(id)?, id)?;
        }
    }
    Ok(())
}

/// Children in long runs of one sort, and the elements where these begin and end.
fn long_runs(cx: &mut Ctx, rng: &mut Rng) -> ([Tree; 2], Vec<usize>) {
    let mut kids: Vec<Arc<T>> = Vec::new();
    let mut edges = Vec::new();
    let token = |k: u16, s: &str| Arc::new(T::K(k, s.into()));
    let sorts = [
        Arc::new(T::N(2, vec![])),
        token(1, ""),
        Arc::new(T::N(2, vec![token(1, "")])),
        token(3, "yé"),
        Arc::new(T::N(4, vec![token(1, ""), token(3, "c")])),
        Arc::new(T::N(6, vec![Arc::new(T::N(2, vec![]))])),
    ];
    let mut order: Vec<usize> = (0..6).chain([0, 3, 1, rng.below(6)]).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, rng.below(i + 1));
    }
    let longest = rng.below(order.len());
    for (at, sort) in order.into_iter().enumerate() {
        let n = match () {
            _ if cx.tiny => rng.range(1, 3),
            _ if at == longest => 66_000,
            _ => *rng.pick(&[1, 40, 140, 300, 530, 1100, 2100]),
        };
        let mut run = vec![sorts[sort].clone(); n];
        if rng.pct(40) {
            // in a node of its own, with something before or after it
            if rng.pct(40) {
                run.insert(0, token(7, "<"));
            }
            if rng.pct(40) {
                run.push(token(7, ">"));
            }
            run = vec![Arc::new(T::N(9, run))];
        }
        edges.extend([kids.len(), kids.len() + run.len() - 1]);
        kids.extend(run);
        if rng.bool() {
            edges.push(kids.len());
            kids.push(token(7, "|"));
        }
    }
    cx.sig(kids.len() as u64);
    cx.add("long runs", 10);
    cx.desc(|| format!("runs that begin and end at {:?}", edges));
    let term = Arc::new(T::N(1, kids));
    let g = crate::build::node_of(&term);
    let mk = |root: SyntaxNode, flavor| Tree { root, flat: Flat::new(&term), term: term.clone(), flavor, keep: vec![], other: vec![] };
    let trees = [mk(SyntaxNode::new_root(g.clone()), "immutable"), mk(SyntaxNode::new_root_mut(g), "mutable")];
    let f = &trees[0].flat;
    let mut ids: Vec<usize> = edges.iter().map(|it| f.kids[0][*it] as usize).collect();
    for i in 0..ids.len() {
        let inner = &f.kids[ids[i]];
        if f.kind[ids[i]] == 9 && !inner.is_empty() {
            ids.extend([0, 1, inner.len().saturating_sub(2), inner.len() - 1].iter().filter_map(|it| inner.get(*it)).map(|it| *it as usize));
        }
    }
    ids.sort_unstable();
    ids.dedup();
    (trees, ids)
}

/// Short elements that begin and end just before, at and just after offsets that are powers of
/// two; no two of them start with the same character.
fn milestones(cx: &mut Ctx, rng: &mut Rng) -> ([Tree; 2], Vec<usize>) {
    let top = match () {
        _ if cx.tiny => 6,
        _ if cx.thorough => 22,
        _ => 18,
    };
    let mut seen = [0; 3];
    let mut next = |n: usize| {
        let i = seen[n - 1];
        seen[n - 1] += 1;
        let ascii = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&()*+,-/:;<=>?@[]^_{|}~";
        char::from_u32([ascii[i % ascii.len()] as u32, 0x391 + i as u32, 0x4e00 + i as u32][n - 1]).unwrap()
    };
    let mut kids: Vec<Arc<T>> = Vec::new();
    let mut at = 0;
    let mut k = rng.range(3, 5) as u32;
    while k <= top {
        let goal = (1usize << k) - rng.range(0, 4);
        // what lies in between, in one piece or in many
        let mut rest = goal.saturating_sub(at);
        at += rest;
        let whole = rng.bool();
        while rest > 0 {
            let n = if whole { rest } else { rest.min(1 << rng.below(18)) };
            kids.push(Arc::new(T::K(7, ".".repeat(n).into())));
            rest -= n;
        }
        while at < (1 << k) + 2 {
            let n = *rng.pick(&[0, 1, 1, 1, 2, 3]);
            let mut text = String::new();
            if n > 0 {
                text.push(next(n));
            }
            at += n;
            if rng.pct(10) {
                text.push('.');
                at += 1;
            }
            let mut it = Arc::new(T::K(rng.below(3) as u16, text.as_str().into()));
            for _ in 0..rng.below(3) {
                let mut v = vec![it];
                if rng.pct(30) {
                    v.insert(rng.below(2), Arc::new(T::N(4, vec![])));
                }
                it = Arc::new(T::N(rng.below(4) as u16, v));
            }
            kids.push(it);
        }
        // all that there is becomes one node
        if rng.pct(20) {
            kids = vec![Arc::new(T::N(8, std::mem::take(&mut kids)))];
        }
        k += 1 + rng.below(2) as u32 * rng.below(2) as u32;
    }
    let term = Arc::new(T::N(1, kids));
    cx.sig(term.sig());
    cx.count("texts with something at powers of two");
    cx.desc(|| format!("{} bytes with something at powers of two", at));
    let g = crate::build::node_of(&term);
    let mk = |root: SyntaxNode, flavor| Tree { root, flat: Flat::new(&term), term: term.clone(), flavor, keep: vec![], other: vec![] };
    let trees = [mk(SyntaxNode::new_root(g.clone()), "immutable"), mk(SyntaxNode::new_root_mut(g), "mutable")];
    let f = &trees[0].flat;
    let short = |id: &usize| f.stop(*id) - f.start[*id] < 5;
    let ids = (0..f.n()).filter(short).collect();
    (trees, ids)
}

/// C05, C06
pub fn runs_nav(cx: &mut Ctx, rng: &mut Rng) -> R {
    let it = long_runs(cx, rng);
    runs_nav_in(cx, rng, it)?;
    let it = milestones(cx, rng);
    runs_nav_in(cx, rng, it)
}

fn runs_nav_in(cx: &mut Ctx, rng: &mut Rng, (trees, ids): ([Tree; 2], Vec<usize>)) -> R {
    for tree in &trees {
        nav::check_nav(cx, rng, tree, 0, &crate::tree::el(&tree.root))?;
        for _ in 0..4 {
            let id = *rng.pick(&ids);
            nav::check_nav(cx, rng, tree, id, &tree.at(id)?)?;
        }
        for id in &ids {
            let e = tree.at(*id)?;
            nav::check_range(cx, tree, *id, &e)?;
            let first = (*id..tree.flat.end[*id] as usize).find(|it| !tree.flat.is_node(*it));
            let t = match &e {
                NodeOrToken::Node(n) => n.first_token(),
                NodeOrToken::Token(t) => Some(t.clone()),
            };
            ckeq!(cx, t.clone().map(|it| tree.locate(&it.into())).transpose()?, first, "first token of element {}", id);
            let last = (*id..tree.flat.end[*id] as usize).rev().find(|it| !tree.flat.is_node(*it));
            let u = match &e {
                NodeOrToken::Node(n) => n.last_token(),
                NodeOrToken::Token(t) => Some(t.clone()),
            };
            ckeq!(cx, u.map(|it| tree.locate(&it.into())).transpose()?, last, "last token of element {}", id);
            let Some((t, at)) = t.zip(first) else { continue };
            let next = (at + 1..tree.flat.n()).find(|it| !tree.flat.is_node(*it));
            ckeq!(cx, t.next_token().map(|it| tree.locate(&it.into())).transpose()?, next, "next token after a long run, from {}", at);
            let prev = (0..at).rev().find(|it| !tree.flat.is_node(*it));
            ckeq!(cx, t.prev_token().map(|it| tree.locate(&it.into())).transpose()?, prev, "previous token before a long run, from {}", at);
        }
    }
    Ok(())
}

/// C08
pub fn runs_walk(cx: &mut Ctx, rng: &mut Rng) -> R {
    let it = long_runs(cx, rng);
    runs_walk_in(cx, rng, it)?;
    let it = milestones(cx, rng);
    runs_walk_in(cx, rng, it)
}

fn runs_walk_in(cx: &mut Ctx, rng: &mut Rng, (trees, _): ([Tree; 2], Vec<usize>)) -> R {
    for tree in &trees {
        nav::c08_at(cx, rng, tree, 0)?;
    }
    Ok(())
}

/// C09
pub fn runs_lookups(cx: &mut Ctx, rng: &mut Rng) -> R {
    let it = long_runs(cx, rng);
    runs_lookups_in(cx, rng, it)?;
    let it = milestones(cx, rng);
    runs_lookups_in(cx, rng, it)
}

fn runs_lookups_in(cx: &mut Ctx, rng: &mut Rng, (trees, ids): ([Tree; 2], Vec<usize>)) -> R {
    for tree in &trees {
        let f = &tree.flat;
        for id in &ids {
            let (a, b) = (f.start[*id], f.stop(*id));
            for off in [a, b] {
                nav::lookups_at(cx, tree, 0, &tree.root, off)?;
            }
            nav::ranges_at(cx, tree, 0, &tree.root, a, b)?;
            let o = *rng.pick(&ids);
            nav::ranges_at(cx, tree, 0, &tree.root, a.min(f.start[o]), b.max(f.stop(o)))?;
        }
    }
    Ok(())
}

/// C10
pub fn runs_text(cx: &mut Ctx, rng: &mut Rng) -> R {
    let it = long_runs(cx, rng);
    runs_text_in(cx, rng, it)?;
    let it = milestones(cx, rng);
    runs_text_in(cx, rng, it)?;
    for _ in 0..10 {
        let ([tree, _], ids) = milestones(cx, rng);
        let v = View { text: tree.root.text(), s: tree.flat.text_of(0), how: "a text with something at powers of two".into() };
        chars_at(cx, &v, &tree, &ids)?;
    }
    Ok(())
}

/// The characters that elements start with.
fn chars_at(cx: &mut Ctx, v: &View, tree: &Tree, ids: &[usize]) -> R {
    for id in ids {
        let (a, b) = (tree.flat.start[*id] as usize, tree.flat.stop(*id) as usize);
        let c = v.s[a..].chars().next();
        ckeq!(cx, v.text.char_at(ts(a as u64)), c, "char_at({}) of {}", a, v.how);
        if let Some(c) = c.filter(|_| a < b) {
            ckeq!(cx, v.text.find_char(c).map(u32::from), v.s.find(c).map(|it| it as u32), "find_char({:?}) of {}", c, v.how);
        }
    }
    Ok(())
}

fn runs_text_in(cx: &mut Ctx, rng: &mut Rng, (trees, ids): ([Tree; 2], Vec<usize>)) -> R {
    for tree in &trees {
        let v = View { text: tree.root.text(), s: tree.flat.text_of(0), how: format!("{} with long runs", tree.flavor) };
        text::check_view(cx, rng, &v)?;
        chars_at(cx, &v, tree, &ids)?;
        // from one run to another
        for _ in 0..2 {
            let (x, y) = (*rng.pick(&ids), *rng.pick(&ids));
            let (x, y) = (x.min(y), x.max(y));
            let (a, b) = (tree.flat.start[x], tree.flat.stop(y));
            let part = View { text: v.text.slice(ts(a)..ts(b)), s: v.s[a as usize..b as usize].into(), how: format!("{}, from {} to {}", v.how, a, b) };
            text::check_view(cx, rng, &part)?;
        }
    }
    Ok(())
}

/// C22
pub fn runs_print(cx: &mut Ctx, rng: &mut Rng) -> R {
    let it = long_runs(cx, rng);
    runs_print_in(cx, rng, it)?;
    let it = milestones(cx, rng);
    runs_print_in(cx, rng, it)
}

fn runs_print_in(cx: &mut Ctx, rng: &mut Rng, (trees, ids): ([Tree; 2], Vec<usize>)) -> R {
    for tree in &trees {
        text::check_one::<Odd>(cx, rng, tree, &crate::tree::el(&tree.root), 0)?;
        for _ in 0..3 {
            let id = *rng.pick(&ids);
            text::check_one::<Raw>(cx, rng, tree, &tree.at(id)?, id)?;
        }
    }
    Ok(())
}

/// C12, C13, C14: one small tree, edited more often than sixteen bits can count. Some of its
/// elements are only looked at again after 2, 4, 8, … edits.
pub fn many_edits(cx: &mut Ctx, rng: &mut Rng) -> R {
    let top = if cx.tiny { 3 } else { 17 };
    let texts = ["", "a", "bé", "cdef"];
    let tok = |s: &str| Arc::new(T::K(3, s.into()));
    // a prefix that changes, the watched elements, each in a node of its own
    let mut kids = vec![Arc::new(T::N(2, vec![tok("a")]))];
    kids.extend((0..=top).map(|i| Arc::new(T::N(10 + i as u16, vec![tok("-"), tok("w")]))));
    let root = SyntaxNode::new_root_mut(crate::build::node_of(&T::N(1, kids)));
    let edited = root.first_child().ok_or("no child")?;
    let nodes: Vec<SyntaxNode> = root.children().skip(1).collect();
    let tokens: Vec<_> = nodes.iter().map(|it| it.last_token().unwrap()).collect();
    let snapshot = root.green().into_owned();
    let before = snapshot.to_string();
    let mut list: Vec<&str> = vec!["a"];
    let mut len = 1u64;
    let start = rng.below(3);
    cx.sig(start as u64);
    for count in 1..=(1u64 << top) + 3 {
        // one edit each: a removal or an insertion
        if list.len() > 2 || (!list.is_empty() && rng.pct(45)) {
            let i = rng.below(list.len());
            let gone = edited.children_with_tokens().nth(i).ok_or("no child")?;
            match rng.below(2) {
                0 => gone.detach(),
                _ => edited.splice_children(i..i + 1, vec![]),
            }
            len -= list.remove(i).len() as u64;
        } else {
            let i = rng.below(list.len() + 1);
            let s = *rng.pick(&texts);
            edited.splice_children(i..i, vec![crate::tree::fresh_mut(&tok(s))]);
            list.insert(i, s);
            len += s.len() as u64;
        }
        for p in 0..=top {
            if count % (1 << p) != 0 {
                break;
            }
            let at = len + 2 * p as u64;
            ckeq!(cx, nodes[p].text_range(), TextRange::new(ts(at), ts(at + 2)), "range of a node after {} edits, looked at every {}", count, 1u64 << p);
            ckeq!(cx, tokens[p].text_range(), TextRange::new(ts(at + 1), ts(at + 2)), "range of a token after {} edits, looked at every {}", count, 1u64 << p);
            ckeq!(cx, nodes[p].index(), p + 1, "index of a node after {} edits", count);
            if p > 6 {
                let want = format!("{}{}", list.concat(), "-w".repeat(top + 1));
                ckeq!(cx, root.to_string(), want, "text after {} edits", count);
                ckeq!(cx, root.green().to_string(), want, "green text after {} edits", count);
                ckeq!(cx, snapshot.to_string(), before, "text of a snapshot {} edits ago", count);
                ck!(cx, root.descendants_with_tokens().all(|it| it.ancestors().last().as_ref() == Some(&root)), "root after {} edits", count);
            }
        }
    }
    cx.add("edits of one tree", 1 << top);
    Ok(())
}

fn fresh(it: &Item) -> R<SyntaxElement> {
    Ok(match green(it) {
        NodeOrToken::Node(g) => SyntaxNode::new_root_mut(g).into(),
        t => {
            let p = SyntaxNode::new_root_mut(GreenNode::new(sk(0), [t]));
            let t = p.first_child_or_token().ok_or("no child")?;
            t.detach();
            t
        }
    })
}

/// Crowds: a handle to every one of thousands of children, and edits of hundreds and thousands of
/// children at once: within a parent, out of it, and from one parent into another.
pub fn crowds(cx: &mut Ctx, rng: &mut Rng) -> R {
    let sizes: &[usize] = if cx.tiny { &[12] } else { &[300, 1100, 4200, 12_000] };
    for &n in sizes {
        crowd(cx, rng, n)?;
    }
    throng(cx, rng)
}

/// The same with more handles than sixteen bits can count. Going over the children takes time in
/// proportion to the handles for each of them, so they are only detached here.
fn throng(cx: &mut Ctx, rng: &mut Rng) -> R {
    let n = if cx.tiny { 20 } else { 65_600 + rng.below(500) };
    let (mut v, g) = make(n);
    let root = SyntaxNode::new_root_mut(g);
    let mut held: Vec<SyntaxElement> = root.children_with_tokens().collect();
    for _ in 0..if cx.thorough { 10 } else { 4 } {
        let any = rng.below(v.len());
        let at = *rng.pick(&[0, 1, v.len() / 2, v.len() - 1, any]);
        held[at].detach();
        let e = held.remove(at);
        let it = v.remove(at);
        ck!(cx, e.parent().is_none() && e.to_string() == it.text, "child {} of a throng of {}, removed", at, n);
        let s = starts(&v);
        for (i, e) in held.iter().enumerate() {
            ckeq!(cx, e.index(), i, "index of child {} of a throng of {} after child {} was removed", i, n, at);
            ckeq!(cx, e.text_range(), range(&s, &v, i), "range of child {} of a throng of {} after child {} was removed", i, n, at);
        }
    }
    let g = root.green().into_owned();
    same_green_list(cx, &g, &v, "of a throng")?;
    cx.count("throngs");
    Ok(())
}

fn crowd(cx: &mut Ctx, rng: &mut Rng, n: usize) -> R {
    let many = n <= 5000;
    let (v, g) = make(n);
    let roots = [SyntaxNode::new_root_mut(g), SyntaxNode::new_root_mut(GreenNode::new(sk(2), Vec::<GreenEl>::new()))];
    let mut lists: [Vec<Item>; 2] = [v, vec![]];
    let mut next_id = n;
    let share = *rng.pick(&[100, 100, 60, 5]);
    let mut held: HashMap<usize, SyntaxElement> = HashMap::new();
    for (it, e) in lists[0].iter().zip(roots[0].children_with_tokens()) {
        if rng.pct(share) {
            held.insert(it.id, e);
        }
    }
    let mut gone: HashMap<usize, Item> = HashMap::new();
    let mut log: Vec<String> = Vec::new();
    for _ in 0..if !many {
        3
    } else if cx.thorough {
        24
    } else {
        8
    } {
        let w = rng.below(2);
        let len = lists[w].len();
        let a = rng.below(len + 1);
        let most = if many { len - a } else { 3.min(len - a) };
        let b = a + if rng.bool() { rng.below(most + 1) } else { most.min(*rng.pick(&[255, 256, 257, 1024, 1025])) };
        match rng.below(4) {
            0 => {
                // out, in one call or one by one
                log.push(format!("delete {}..{} of {}", a, b, w));
                if rng.bool() {
                    roots[w].splice_children(a..b, vec![]);
                } else {
                    let mut out: Vec<SyntaxElement> = roots[w].children_with_tokens().skip(a).take(b - a).collect();
                    match rng.below(3) {
                        0 => out.reverse(),
                        1 => rng.shuffle(&mut out),
                        _ => (),
                    }
                    out.iter().for_each(|it| it.detach());
                }
                for it in lists[w].drain(a..b) {
                    gone.insert(it.id, it);
                }
            }
            1 => {
                // new ones in
                let m = if many { *rng.pick(&[200, 256, 257, 300, 1100]) } else { 3 };
                let m = if cx.tiny { 5 } else { m };
                let new: Vec<Item> = (next_id..next_id + m).map(item).collect();
                next_id += m;
                let els = new.iter().map(fresh).collect::<R<Vec<_>>>()?;
                for (it, e) in new.iter().zip(&els) {
                    if rng.pct(share) {
                        held.insert(it.id, e.clone());
                    }
                }
                let b = if rng.bool() { a } else { b };
                log.push(format!("{} new for {}..{} of {}", m, a, b, w));
                roots[w].splice_children(a..b, els);
                for it in lists[w].splice(a..b, new) {
                    gone.insert(it.id, it);
                }
            }
            2 => {
                // those of one into the other
                let to = rng.below(lists[1 - w].len() + 1);
                log.push(format!("move {}..{} of {} to {}", a, b, w, to));
                let mut els: Vec<(Item, SyntaxElement)> = lists[w].drain(a..b).zip(roots[w].children_with_tokens().skip(a)).collect();
                if rng.bool() {
                    els.reverse();
                }
                let (its, els): (Vec<Item>, Vec<SyntaxElement>) = els.into_iter().unzip();
                roots[1 - w].splice_children(to..to, els);
                lists[1 - w].splice(to..to, its);
            }
            _ => {
                // back in, what was taken out
                let mut ids: Vec<usize> = gone.keys().copied().filter(|it| held.contains_key(it)).collect();
                ids.sort();
                rng.shuffle(&mut ids);
                ids.truncate(if many { 1500 } else { 3 });
                log.push(format!("{} back to {} of {}", ids.len(), a, w));
                let its: Vec<Item> = ids.iter().map(|it| gone.remove(it).unwrap()).collect();
                let els: Vec<SyntaxElement> = ids.iter().map(|it| held[it].clone()).collect();
                roots[w].splice_children(a..a, els);
                lists[w].splice(a..a, its);
            }
        }
        cx.count("edits of crowds");
        let ctx = |e: String| format!("{}, {} children, after {:?}", e, n, log);
        for w in 0..2 {
            let s = starts(&lists[w]);
            for (i, it) in lists[w].iter().enumerate() {
                if let Some(e) = held.get(&it.id) {
                    (|| {
                        ck!(cx, e.parent().as_ref() == Some(&roots[w]), "parent of child {} of {}", i, w);
                        ckeq!(cx, e.index(), i, "index of child {} of {}", i, w);
                        ckeq!(cx, e.text_range(), range(&s, &lists[w], i), "range of child {} of {}", i, w);
                        ckeq!(cx, e.kind().0, it.kind, "kind of child {} of {}", i, w);
                        Ok(())
                    })()
                    .map_err(ctx)?;
                }
            }
            let g = roots[w].green().into_owned();
            same_green_list(cx, &g, &lists[w], "of a crowd").map_err(ctx)?;
        }
        for (id, it) in &gone {
            if let Some(e) = held.get(id) {
                (|| {
                    ck!(cx, e.parent().is_none(), "a removed child has a parent");
                    ckeq!(cx, e.to_string(), it.text, "text of a removed child");
                    Ok(())
                })()
                .map_err(ctx)?;
            }
        }
        for w in 0..2 {
            // what is found from the parent is what was held
            for (i, e) in roots[w].children_with_tokens().enumerate() {
                ck!(cx, held.get(&lists[w][i].id).map_or(true, |it| *it == e), "child {} of {} is another, {} children, after {:?}", i, w, n, log);
            }
        }
    }
    cx.desc(|| format!("a crowd of {}: {}", n, log.join(", ")));
    cx.count("crowds");
    Ok(())
}
