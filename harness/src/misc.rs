//! Refused requests, node pointers, the typed layer.
use std::{cell::Cell, collections::HashMap, sync::Arc};

use rowan::{
    api,
    ast::{support, AstChildren, AstNode, AstPtr, SyntaxNodePtr},
    cursor::{self, SyntaxNode},
    Direction, GreenNode, GreenNodeBuilder, GreenToken, Language, NodeCache, NodeOrToken, SyntaxKind, TextRange, TokenAtOffset, WalkEvent,
};

use crate::{
    build::{build, emit, node_of, same_green, sk, GreenEl},
    ck, ckeq,
    nav::{hash_of, ids, setup},
    rng::Rng,
    term::{big_text, rand_term, Flat, T},
    text::{Odd, OddKind, Raw},
    tree::{el, fresh_mut, make_tree, rng_of, same_tree, ts, Pick, Tree},
    util::{catch, Ctx, R},
};

// ---------------------------------------------------------------------------------------------
// C19

fn refuse<X>(cx: &mut Ctx, what: &str, f: impl FnOnce() -> X) -> R {
    let r = catch(f);
    cx.count(&format!("refused: {}", what));
    ck!(cx, r.is_err(), "not refused: {}", what);
    Ok(())
}

/// Building with mistakes in it.
pub fn misbuild(cx: &mut Ctx, rng: &mut Rng) -> R {
    let mut cache = NodeCache::default();
    let t = rand_term(rng, if cx.tiny { 6 } else { 30 });
    cx.sig(t.sig());
    let rounds = rng.range(1, 4);
    for _ in 0..rounds {
        let own = rng.bool();
        let mut b = if own { GreenNodeBuilder::new() } else { GreenNodeBuilder::with_cache(&mut cache) };
        let which = rng.below(11);
        cx.sig(which as u64);
        match which {
            0 => refuse(cx, "finish without anything", || b.finish())?,
            1 => {
                emit(&t, &mut b);
                emit(&t, &mut b);
                refuse(cx, "finish with two roots", || b.finish())?
            }
            2 => {
                b.token(sk(1), "x");
                refuse(cx, "finish with a token at the root", || b.finish())?
            }
            3 => {
                b.start_node(sk(1));
                emit(&t, &mut b);
                if rng.bool() {
                    emit(&t, &mut b);
                }
                refuse(cx, "finish with an unfinished node", || b.finish())?
            }
            4 => {
                // before any node, and between complete ones
                if rng.bool() {
                    emit(&t, &mut b);
                }
                refuse(cx, "finish_node without start_node", || b.finish_node())?;
                let mut c = GreenNodeBuilder::new();
                emit(&t, &mut c);
                same_green(&c.finish(), &t)?;
            }
            5 => {
                // taken inside of a node that has been finished since
                b.start_node(sk(1));
                b.token(sk(2), "a");
                b.token(sk(2), "b");
                for _ in 0..rng.below(3) {
                    emit(&t, &mut b);
                }
                let cp = b.checkpoint();
                b.finish_node();
                refuse(cx, "checkpoint from a finished node", || b.start_node_at(cp, sk(3)))?;
                let g = b.finish();
                ckeq!(cx, g.kind().0, 1, "kind of the tree after a refused start_node_at");
                ckeq!(cx, g.children().next().map(|it| it.kind().0), Some(2), "first child after a refused start_node_at");
            }
            6 | 7 => {
                // taken outside of the current node
                b.start_node(sk(1));
                for _ in 0..rng.below(2) {
                    b.token(sk(2), "a");
                }
                let cp = b.checkpoint();
                let n = rng.range(1, 3);
                for _ in 0..n {
                    emit(&t, &mut b);
                }
                if which == 6 {
                    b.start_node(sk(4));
                } else {
                    let cp2 = b.checkpoint();
                    b.start_node_at(cp2, sk(4));
                }
                refuse(cx, "checkpoint from outside of the current node", || b.start_node_at(cp, sk(3)))?;
                b.finish_node();
                b.finish_node();
                let g = b.finish();
                let kinds: Vec<u16> = g.children().map(|it| it.kind().0).collect();
                ckeq!(cx, kinds.last(), Some(&4), "last child after a refused start_node_at");
                ckeq!(cx, kinds.iter().filter(|it| **it == t.kind()).count() >= n, true, "children after a refused start_node_at");
            }
            8 => {
                // a builder that is abandoned
                b.start_node(sk(1));
                emit(&t, &mut b);
                drop(b);
            }
            9 => {
                // a panic while building
                let r = catch(|| {
                    b.start_node(sk(1));
                    emit(&t, &mut b);
                    panic!("parser");
                });
                ck!(cx, r.is_err(), "the panic got lost");
                emit(&t, &mut b);
                b.finish_node();
                let g = b.finish();
                ckeq!(cx, g.children().len(), 2, "children after a panic in the middle");
            }
            _ => {
                let cp = b.checkpoint();
                emit(&t, &mut b);
                emit(&t, &mut b);
                b.start_node_at(cp, sk(9));
                b.finish_node();
                let g = b.finish();
                ckeq!(cx, g.children().len(), 2, "children of a wrapping node");
            }
        }
        // the cache is none the worse
        let mut b = GreenNodeBuilder::with_cache(&mut cache);
        emit(&t, &mut b);
        let g = b.finish();
        same_green(&g, &t).map_err(|e| format!("after misuse of a builder: {}", e))?;
        ck!(cx, g == node_of(&t), "after misuse of a builder: unequal tree");
    }
    Ok(())
}

struct Lying<I> {
    it: I,
    len: usize,
}
impl<I: Iterator> Iterator for Lying<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.len, Some(self.len))
    }
}
impl<I: Iterator> ExactSizeIterator for Lying<I> {
    fn len(&self) -> usize {
        self.len
    }
}

pub fn lying(cx: &mut Ctx, rng: &mut Rng, judge: bool) -> R {
    let t = rand_term(rng, 12);
    cx.sig(t.sig());
    let g = node_of(&t);
    let els: Vec<GreenEl> = g.children().map(|c| c.to_owned()).collect();
    let n = els.len();
    let claims = [0, n.saturating_sub(1), n + 1, n + 2, 2 * n + 1, usize::MAX, usize::MAX / 16, isize::MAX as usize / 16 + 1];
    for len in claims {
        if len == n {
            continue;
        }
        // claims that are merely huge are refused for their size, or the memory is refused
        if len > 1 << 20 && (len as u128 * 16) < 1 << 62 {
            continue;
        }
        let it = Lying { it: els.clone().into_iter(), len };
        let r = catch(|| GreenNode::new(sk(1), it));
        cx.count("lying iterators");
        if judge {
            ck!(cx, r.is_err(), "an iterator of {} elements that claims {} is not refused", n, len);
        }
    }
    // one that panics
    let at = rng.below(n + 1);
    let mut i = 0;
    let it = Lying {
        it: els.clone().into_iter().map(|it| {
            i += 1;
            if i > at {
                panic!("child")
            }
            it
        }),
        len: n,
    };
    let r = catch(|| GreenNode::new(sk(1), it));
    cx.count("panicking iterators");
    if judge {
        ckeq!(cx, r.is_err(), at < n, "a panicking iterator");
    }
    // splicing with a panicking iterator
    let mut i = 0;
    let ins = els.iter().cloned().map(|it| {
        i += 1;
        if i > at {
            panic!("child")
        }
        it
    });
    let a = rng.below(n + 1);
    let b = rng.range(a, n);
    let r = catch(|| g.splice_children(a..b, ins));
    if judge {
        ckeq!(cx, r.is_err(), at < n, "a panicking iterator");
        same_green(&g, &t).map_err(|e| format!("after a refused operation: {}", e))?;
        ck!(cx, g == node_of(&t), "after a refused operation the tree is different");
    }
    Ok(())
}

pub fn c19(cx: &mut Ctx, rng: &mut Rng) -> R {
    match rng.below(10) {
        0 => misbuild(cx, rng),
        1 => lying(cx, rng, true),
        2 => c19_lookups(cx, rng),
        _ => crate::world::c19_history(cx, rng),
    }
}

/// Lookups out of range on all sorts of trees.
fn c19_lookups(cx: &mut Ctx, rng: &mut Rng) -> R {
    let tree = setup(cx, rng, Pick::Any, 25)?;
    let f = &tree.flat;
    for id in ids(rng, f, 8) {
        if !f.is_node(id) {
            continue;
        }
        let e = tree.reach(rng, id)?;
        let n = e.as_node().unwrap();
        let (a, b) = (f.start[id], f.stop(id));
        refuse(cx, "token_at_offset out of range", || n.token_at_offset(ts(b + 1)))?;
        refuse(cx, "covering_element out of range", || n.covering_element(TextRange::new(ts(a), ts(b + 1))))?;
        refuse(cx, "covering_element out of range", || n.covering_element(TextRange::new(ts(b + 1), ts(b + 1))))?;
        if a > 0 {
            refuse(cx, "token_at_offset out of range", || n.token_at_offset(ts(a - 1)))?;
            refuse(cx, "covering_element out of range", || n.covering_element(TextRange::new(ts(a - 1), ts(b))))?;
        }
        let t = n.text();
        refuse(cx, "slice out of bounds", || t.slice(ts(0)..ts(b - a + 1)))?;
        refuse(cx, "slice out of bounds", || t.slice(ts(b - a + 1)..))?;
        refuse(cx, "slice out of bounds", || t.slice(TextRange::new(ts(0), ts(u32::MAX as u64))))?;
        refuse(cx, "slice out of bounds", || t.slice(ts(u32::MAX as u64)..ts(u32::MAX as u64)))?;
        // every lookup that is in range still works
        crate::nav::lookups_at(cx, &tree, id, n, a)?;
        crate::nav::lookups_at(cx, &tree, id, n, b)?;
        let c = catch(|| t.to_string());
        ckeq!(cx, c, Ok(f.text_of(id)), "text after refused slices");
        if !n.is_mutable() {
            let m = n.clone_for_update();
            let root = m.ancestors().last().unwrap();
            refuse(cx, "clone_for_update of a mutable tree", || m.clone_for_update())?;
            same_tree(&root, &tree.term)?;
        } else {
            refuse(cx, "clone_for_update of a mutable tree", || n.clone_for_update())?;
        }
    }
    same_tree(&tree.root, &tree.term)
}

/// A green node of 2^`log2` bytes of text, nearly all of it shared.
fn doubled(log2: u32) -> GreenNode {
    let mut g = GreenNode::new(sk(1), vec![NodeOrToken::Token(GreenToken::new(sk(1), "0123456789abcde\n")) as GreenEl]);
    for _ in 4..log2 {
        g = GreenNode::new(sk(1), vec![NodeOrToken::Node(g.clone()) as GreenEl, NodeOrToken::Node(g)]);
    }
    g
}

/// Texts that become too long by edits in some nested place, next to what is long already.
pub fn c19_long(cx: &mut Ctx, rng: &mut Rng) -> R {
    let (a, b) = (31, rng.range(28, 30) as u32);
    let fill = (1u64 << 32) - (1 << a) - (1 << b);
    // the long parts, each below a few nodes of its own
    let deep = |rng: &mut Rng, g: GreenNode| -> GreenEl {
        let mut g = g;
        for i in 0..rng.below(4) {
            let mut v: Vec<GreenEl> = vec![NodeOrToken::Node(g)];
            if rng.bool() {
                v.insert(rng.below(2), NodeOrToken::Node(GreenNode::new(sk(70 + i as u16), vec![])));
            }
            g = GreenNode::new(sk(60 + i as u16), v);
        }
        NodeOrToken::Node(g)
    };
    let mut kids = vec![deep(rng, doubled(a)), deep(rng, doubled(b))];
    // a path with little text, anywhere among them
    let path = rng.range(1, 4);
    let mut g = GreenNode::new(sk(50), vec![NodeOrToken::Token(GreenToken::new(sk(2), "x")) as GreenEl, NodeOrToken::Token(GreenToken::new(sk(2), "y"))]);
    for i in 1..path {
        g = GreenNode::new(sk(50 + i as u16), vec![NodeOrToken::Node(g) as GreenEl]);
    }
    kids.insert(rng.below(3), NodeOrToken::Node(g));
    let root = match rng.bool() {
        true => SyntaxNode::new_root_mut(GreenNode::new(sk(40), kids)),
        false => SyntaxNode::new_root(GreenNode::new(sk(40), kids)).clone_for_update(),
    };
    let total = (1u64 << a) + (1 << b) + 2;
    let len = |n: &SyntaxNode| u64::from(u32::from(n.text_range().len()));
    ckeq!(cx, len(&root), total, "length of a long tree");
    // (a walk through all of it would take very long)
    let mut inner = root.children().find(|it| (50..60).contains(&it.kind().0)).ok_or("no inner node")?;
    while let Some(it) = inner.first_child() {
        inner = it;
    }
    let line: Vec<SyntaxNode> = inner.ancestors().collect();
    let held: Vec<cursor::SyntaxElement> = inner.children_with_tokens().collect();
    let home =
        SyntaxNode::new_root_mut(GreenNode::new(sk(41), vec![NodeOrToken::Token(GreenToken::new(sk(2), "h")) as GreenEl, NodeOrToken::Node(doubled(31))]));
    for _ in 0..3 {
        let at = rng.pick(&line).clone();
        let n = at.children_with_tokens().count();
        let i = rng.below(n + 1);
        let (child, old) = match rng.below(3) {
            0 => (SyntaxNode::new_root_mut(doubled(31)), None),
            1 => (SyntaxNode::new_root_mut(GreenNode::new(sk(42), vec![deep(rng, doubled(31))])), None),
            _ => match home.last_child() {
                Some(c) => (c, Some(home.clone())),
                None => (SyntaxNode::new_root_mut(doubled(31)), None),
            },
        };
        // what fits goes in first
        let mut v: Vec<cursor::SyntaxElement> = vec![];
        if rng.bool() {
            v.push(fresh_mut(&T::N(43, vec![])));
        }
        let fit = v.len();
        let handles = v.clone();
        v.push(el(&child));
        refuse(cx, "a text of 4 GiB", || at.splice_children(i..i, v))?;
        match child.parent() {
            None => {}
            p => ck!(cx, p.is_some() && p == old, "an element that did not fit has a parent"),
        }
        ckeq!(cx, len(&child), 1 << 31, "length of an element that did not fit");
        // of what fits, the part before may be in
        let now = at.children_with_tokens().count();
        ck!(cx, now == n || now == n + fit, "{} children instead of {} after a refused edit", now, n);
        for it in &handles {
            if it.parent().is_some() {
                ck!(cx, it.parent().as_ref() == Some(&at) && it.index() == i, "an element before the one that did not fit");
                it.detach();
            }
        }
        ckeq!(cx, len(&root), total, "length of a tree after a refused edit");
        for (k, n) in line.iter().enumerate() {
            let want = if k + 1 == line.len() { total } else { 2 };
            ckeq!(cx, len(n), want, "length of a node {} levels above the place of a refused edit", k);
            ck!(cx, n.parent() == line.get(k + 1).cloned(), "parent of a node above the place of a refused edit");
        }
        for (k, e) in held.iter().enumerate() {
            ck!(cx, e.index() == k && e.parent().as_ref() == Some(&inner), "a handle near the place of a refused edit");
        }
        ckeq!(cx, at.children_with_tokens().count(), n, "children after a refused edit");
        // it can go elsewhere
        let other = SyntaxNode::new_root_mut(GreenNode::new(sk(44), vec![]));
        other.splice_children(0..0, Some(el(&child)));
        ckeq!(cx, len(&other), 1 << 31, "length of a tree that takes what did not fit elsewhere");
        ck!(cx, child.parent().as_ref() == Some(&other), "parent of what did not fit elsewhere");
    }
    // a long part may move within its tree, as it does not grow
    let mut long = root.children().find(|it| len(it) == 1 << 31).ok_or("no long node")?;
    while long.kind().0 != 1 {
        long = long.children().find(|it| len(it) == 1 << 31).ok_or("no long node")?;
    }
    {
        let at = &line[rng.below(line.len())];
        let i = if *at == root { 0 } else { rng.below(at.children_with_tokens().count() + 1) };
        at.splice_children(i..i, Some(el(&long)));
        ckeq!(cx, len(&root), total, "length of a tree with a long part moved");
        ck!(cx, long.parent().as_ref() == Some(at) && long.index() == i, "place of a long part that was moved");
        cx.count("long parts moved");
    }
    // filled to the brim
    let room = fill - 3;
    if room < 1 << 28 || !cx.tiny {
        let top = root.clone();
        let mut left = room;
        let mut v: Vec<cursor::SyntaxElement> = vec![];
        for p in (4..32).rev() {
            if left >> p & 1 == 1 {
                v.push(el(&SyntaxNode::new_root_mut(doubled(p))));
                left -= 1 << p;
            }
        }
        if left > 0 {
            v.push(fresh_mut(&T::K(3, "0123456789abcdef"[..left as usize].into())));
        }
        top.splice_children(0..0, v);
        ckeq!(cx, len(&root), u32::MAX as u64, "length of the longest text");
        refuse(cx, "a text of 4 GiB", || inner.splice_children(0..0, Some(fresh_mut(&T::K(1, "z".into())))))?;
        inner.splice_children(0..0, Some(fresh_mut(&T::K(1, "".into()))));
        held[0].detach();
        inner.splice_children(1..1, Some(fresh_mut(&T::K(1, "z".into()))));
        ckeq!(cx, len(&root), u32::MAX as u64, "length of the longest text");
    }
    cx.count("long nested edits");
    Ok(())
}

pub fn c19_special(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    if which >= 4 {
        return c19_long(cx, rng);
    }
    // texts that do not fit
    cx.sig(which as u64);
    if cx.tiny {
        return Ok(());
    }
    let big = big_text(26);
    let n = big.len() as u64;
    let tok: GreenEl = NodeOrToken::Token(GreenToken::new(sk(1), &big));
    let full = (1u64 << 32) / n;
    let near: Vec<GreenEl> = vec![tok.clone(); (full - 1) as usize];
    let fill = |len: u64| -> GreenEl { NodeOrToken::Token(GreenToken::new(sk(2), &big[..len as usize])) };
    match which {
        0 => {
            // directly
            let mut v = near.clone();
            v.push(fill(n - 1));
            let g = GreenNode::new(sk(1), v.clone());
            ckeq!(cx, u32::from(g.text_len()), u32::MAX, "length of the longest text");
            v.push(fill(0));
            let g0 = GreenNode::new(sk(1), v.clone());
            ckeq!(cx, u32::from(g0.text_len()), u32::MAX, "length of the longest text");
            v.push(fill(1));
            refuse(cx, "a text of 4 GiB", || GreenNode::new(sk(1), v.clone()))?;
            refuse(cx, "a text of 4 GiB", || GreenNode::new(sk(1), vec![NodeOrToken::Node(g.clone()) as GreenEl, fill(1)]))?;
            refuse(cx, "a text of 4 GiB", || GreenNode::new(sk(1), vec![NodeOrToken::Node(g.clone()) as GreenEl, NodeOrToken::Node(g.clone())]))?;
            refuse(cx, "a text of 4 GiB", || g.insert_child(rng.below(3), fill(1)))?;
            refuse(cx, "a text of 4 GiB", || g.replace_child(0, NodeOrToken::Node(g0.clone())))?;
            refuse(cx, "a text of 4 GiB", || g.splice_children(0..1, vec![fill(n), fill(1)]))?;
            ckeq!(cx, u32::from(g.text_len()), u32::MAX, "length after refused edits");
            let h = g.replace_child(0, fill(3));
            ckeq!(cx, u32::from(h.text_len()) as u64, u32::MAX as u64 - n + 3, "length after an edit");
        }
        1 => {
            // through a builder
            let half = GreenNode::new(sk(1), vec![tok.clone(); full as usize / 2]);
            let _ = half;
            let mut b = GreenNodeBuilder::new();
            b.start_node(sk(1));
            for _ in 0..full {
                b.token(sk(1), &big);
            }
            refuse(cx, "a text of 4 GiB", || b.finish_node())?;
            drop(b);
            // nested, few children, so that the cache has a say
            let mut cache = NodeCache::default();
            let mut b = GreenNodeBuilder::with_cache(&mut cache);
            let r = catch(|| {
                fn go(b: &mut GreenNodeBuilder<'_>, big: &str, n: u64) {
                    b.start_node(sk(3));
                    if n == 1 {
                        b.token(sk(1), big);
                    } else {
                        go(b, big, n / 2);
                        go(b, big, n - n / 2);
                    }
                    b.finish_node();
                }
                go(&mut b, &big, full)
            });
            cx.count("refused: a text of 4 GiB");
            ck!(cx, r.is_err(), "not refused: a text of 4 GiB");
            drop(b);
            let mut b = GreenNodeBuilder::with_cache(&mut cache);
            b.start_node(sk(3));
            b.token(sk(1), &big);
            b.finish_node();
            let g = b.finish();
            ckeq!(cx, u32::from(g.text_len()) as u64, n, "length after a refused build");
        }
        2 => {
            // by editing a mutable tree
            let g = GreenNode::new(sk(1), near.clone());
            let inner = GreenNode::new(sk(4), vec![NodeOrToken::Node(g) as GreenEl]);
            let root = SyntaxNode::new_root_mut(inner);
            let at = root.first_child().unwrap();
            let other = SyntaxNode::new_root_mut(GreenNode::new(sk(5), vec![fill(1), fill(n), fill(2)]));
            let x = other.children_with_tokens().nth(1).unwrap();
            let y = other.children_with_tokens().nth(2).unwrap();
            let keep = at.children_with_tokens().nth(3).unwrap();
            refuse(cx, "a text of 4 GiB", || at.splice_children(2..2, Some(x.clone())))?;
            refuse(cx, "a text of 4 GiB", || root.splice_children(0..0, Some(x.clone())))?;
            // all of it is still usable
            ckeq!(cx, u32::from(root.text_range().len()) as u64, n * (full - 1), "length of a tree after a refused edit");
            ckeq!(cx, keep.index(), 3, "index of a handle after a refused edit");
            ckeq!(cx, u32::from(keep.text_range().start()) as u64, 3 * n, "range of a handle after a refused edit");
            ckeq!(cx, at.children_with_tokens().count(), full as usize - 1, "children after a refused edit");
            ckeq!(cx, x.as_token().unwrap().text().len() as u64, n, "text of an element that did not fit");
            match x.parent() {
                Some(p) => ck!(cx, p == other, "an element that did not fit is somewhere else"),
                None => ckeq!(cx, other.children_with_tokens().count(), 2, "children of its former parent"),
            }
            x.detach();
            ck!(cx, x.parent().is_none(), "an element that did not fit cannot be detached");
            at.splice_children(0..1, Some(x.clone()));
            ck!(cx, x.parent().as_ref() == Some(&at) && x.index() == 0, "an element that did not fit, after making room");
            at.splice_children(1..1, Some(y.clone()));
            ckeq!(cx, keep.index(), 4, "index of a handle after an edit");
            ckeq!(cx, u32::from(keep.text_range().start()) as u64, 3 * n + 2, "range of a handle after an edit");
            // exactly full
            let z = SyntaxNode::new_root_mut(GreenNode::new(sk(6), vec![fill(n - 3)]));
            at.splice_children(0..0, Some(el(&z)));
            ckeq!(cx, u32::from(root.text_range().end()), u32::MAX, "end of the longest text");
            refuse(cx, "a text of 4 GiB", || z.splice_children(0..0, Some(fresh_mut(&T::K(1, "z".into())))))?;
            ckeq!(cx, u32::from(root.text_range().end()), u32::MAX, "end of the longest text");
            ck!(cx, z.parent().as_ref() == Some(&at), "parent after a refused edit");
            root.first_child().unwrap().detach();
            ckeq!(cx, u32::from(root.text_range().end()), 0, "end after detaching everything");
            ckeq!(cx, u32::from(at.text_range().end()), u32::MAX, "end of what was detached");
        }
        _ => {
            // by substituting
            let g = GreenNode::new(sk(1), near.clone());
            let root = SyntaxNode::new_root(GreenNode::new(sk(4), vec![NodeOrToken::Node(g.clone()) as GreenEl, fill(n - 1)]));
            let c = root.first_child().unwrap();
            let mut v = near;
            v.push(fill(1));
            let more = GreenNode::new(sk(1), v);
            refuse(cx, "a text of 4 GiB", || c.replace_with(more.clone()))?;
            let t = root.last_child_or_token().and_then(|it| it.into_token()).unwrap();
            refuse(cx, "a text of 4 GiB", || t.replace_with(GreenToken::new(sk(2), &big)))?;
            ckeq!(cx, u32::from(root.text_range().end()), u32::MAX, "end of the longest text");
            let ok = t.replace_with(GreenToken::new(sk(2), "ab"));
            ckeq!(cx, u32::from(ok.text_len()) as u64, n * (full - 1) + 2, "length after substituting");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C20

macro_rules! ast {
    ($name:ident, $lang:ty, $can:expr) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct $name(pub api::SyntaxNode<$lang>);
        impl AstNode for $name {
            type Language = $lang;
            fn can_cast(kind: <$lang as Language>::Kind) -> bool {
                let can: fn(<$lang as Language>::Kind) -> bool = $can;
                can(kind)
            }
            fn cast(node: api::SyntaxNode<$lang>) -> Option<$name> {
                Self::can_cast(node.kind()).then(|| $name(node))
            }
            fn syntax(&self) -> &api::SyntaxNode<$lang> {
                &self.0
            }
        }
    };
}

ast!(AnyRaw, Raw, |_| true);
ast!(EvenRaw, Raw, |k| k.0 % 2 == 0);
ast!(AnyOdd, Odd, |_| true);
ast!(EvenOdd, Odd, |k| k.0 % 2 == 0);
ast!(ThirdOdd, Odd, |k| ((k.0 - 7) / 3) % 3 == 1);

/// Types of which a kind is not enough to be one: `cast` looks at the node, too.
macro_rules! picky {
    ($name:ident, $can:expr, $is:expr) => {
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub struct $name(pub api::SyntaxNode<Odd>);
        impl AstNode for $name {
            type Language = Odd;
            fn can_cast(kind: <Odd as Language>::Kind) -> bool {
                let can: fn(<Odd as Language>::Kind) -> bool = $can;
                can(kind)
            }
            fn cast(node: api::SyntaxNode<Odd>) -> Option<$name> {
                let is: fn(&api::SyntaxNode<Odd>) -> bool = $is;
                (Self::can_cast(node.kind()) && is(&node)).then(|| $name(node))
            }
            fn syntax(&self) -> &api::SyntaxNode<Odd> {
                &self.0
            }
        }
    };
}

picky!(FullOdd, |_| true, |n| n.first_child_or_token().is_some());
picky!(LongOdd, |k| k.0 % 3 != 1, |n| u32::from(n.text_range().len()) % 2 == 1);

/// Whether a node of the model is of a type.
trait Is {
    fn is(f: &Flat, id: usize) -> bool;
}
fn kind_is<A: AstNode<Language = Odd>>(f: &Flat, id: usize) -> bool {
    A::can_cast(Odd::kind_from_raw(SyntaxKind(f.kind[id])))
}
impl Is for AnyOdd {
    fn is(f: &Flat, id: usize) -> bool {
        kind_is::<Self>(f, id)
    }
}
impl Is for EvenOdd {
    fn is(f: &Flat, id: usize) -> bool {
        kind_is::<Self>(f, id)
    }
}
impl Is for ThirdOdd {
    fn is(f: &Flat, id: usize) -> bool {
        kind_is::<Self>(f, id)
    }
}
impl Is for FullOdd {
    fn is(f: &Flat, id: usize) -> bool {
        !f.kids[id].is_empty()
    }
}
impl Is for LongOdd {
    fn is(f: &Flat, id: usize) -> bool {
        kind_is::<Self>(f, id) && (f.stop(id) - f.start[id]) % 2 == 1
    }
}

/// Small kinds only, so that kinds repeat; sometimes a spine of nodes with equal ranges.
fn ptr_term(rng: &mut Rng, budget: usize) -> Arc<T> {
    let t = crate::term::rand_shape(rng, budget);
    fn squash(t: &T, m: u16) -> Arc<T> {
        Arc::new(match t {
            T::N(k, c) => T::N(k % m, c.iter().map(|it| squash(it, m)).collect()),
            T::K(k, s) => T::K(k % m, s.clone()),
        })
    }
    match rng.below(3) {
        0 => t,
        1 => squash(&t, 2),
        _ => squash(&t, 5),
    }
}

fn c20_with<L: Language, A: AstNode<Language = L>, E: AstNode<Language = L>>(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = if cx.tiny { 8 } else { *rng.pick(&[5, 12, 30, 80]) };
    let t = ptr_term(rng, budget);
    let flavored = make_tree(rng, &t, Pick::Immutable, None)?;
    cx.sig(t.sig());
    cx.case_trivial = flavored.flat.n() < 3;
    cx.desc(|| format!("{} {}", flavored.flavor, t.show()));
    // trees to look into: the same, the same content built otherwise, a copy of a mutable one
    let imm = |g: GreenNode| Tree { root: SyntaxNode::new_root(g), flat: Flat::new(&t), term: t.clone(), flavor: "immutable", keep: vec![], other: vec![] };
    let twin = imm(build(rng, &t, None).0);
    let again = imm(flavored.root.green().into_owned());
    // other contents
    let (t2, _) = crate::green::mutate(rng, &t);
    let T::N(..) = &*t2 else { return Ok(()) };
    let near = Tree { root: SyntaxNode::new_root(node_of(&t2)), flat: Flat::new(&t2), term: t2.clone(), flavor: "immutable", keep: vec![], other: vec![] };
    let f = &flavored.flat;
    let mut count: HashMap<(u16, u64, u64), Vec<usize>> = HashMap::new();
    for id in (0..f.n()).filter(|it| f.is_node(*it)) {
        count.entry((f.kind[id], f.start[id], f.stop(id))).or_default().push(id);
    }
    let mut near_count: HashMap<(u16, u64, u64), Vec<usize>> = HashMap::new();
    for id in (0..near.flat.n()).filter(|it| near.flat.is_node(*it)) {
        near_count.entry((near.flat.kind[id], near.flat.start[id], near.flat.stop(id))).or_default().push(id);
    }
    let mut ptrs: Vec<(SyntaxNodePtr<L>, (u16, u64, u64))> = Vec::new();
    for id in ids(rng, f, if cx.tiny { 5 } else { 40 }) {
        if !f.is_node(id) {
            continue;
        }
        let n: api::SyntaxNode<L> = flavored.reach(rng, id)?.into_node().unwrap().into();
        let key = (f.kind[id], f.start[id], f.stop(id));
        let p = SyntaxNodePtr::new(&n);
        ckeq!(cx, p.kind(), L::kind_from_raw(SyntaxKind(key.0)), "kind of a pointer");
        ckeq!(cx, p.text_range(), rng_of(f, id), "range of a pointer");
        for tree in [&flavored, &twin, &again] {
            let root: api::SyntaxNode<L> = tree.root.clone().into();
            let r = p.try_to_node(&root).ok_or_else(|| format!("the pointer to element {} of {} finds nothing", id, t.show()))?;
            let raw: cursor::SyntaxNode = r.clone().into();
            let at = tree.locate(&el(&raw))?;
            ck!(cx, count[&key].contains(&at), "the pointer to element {} of {} finds element {}", id, t.show(), at);
            ckeq!(cx, raw.text_range(), p.text_range(), "range of the node found");
            ckeq!(cx, r.kind(), p.kind(), "kind of the node found");
            ck!(cx, p.to_node(&root) == r, "to_node and try_to_node differ");
            if count[&key].len() == 1 {
                cx.count("unique");
            } else {
                cx.count("ambiguous");
            }
            if key.1 == key.2 {
                cx.count("empty");
            }
            // anything but a root finds nothing
            for c in root.children().take(2) {
                ck!(cx, p.try_to_node(&c).is_none(), "a pointer is resolved below a node that is not a root");
            }
            // typed
            let a = A::cast(r.clone()).ok_or("cast")?;
            let ap = AstPtr::new(&a);
            ck!(cx, ap.syntax_node_ptr() == p, "a typed pointer differs");
            ck!(cx, format!("{:?}", ap).contains(&format!("{:?}", p)), "{:?} does not show {:?}", ap, p);
            ck!(cx, SyntaxNodePtr::from(ap.clone()) == p, "a typed pointer differs");
            ck!(cx, ap.try_to_node(&root).map(|it| it.syntax().clone()) == Some(r.clone()), "a typed pointer finds something else");
            ck!(cx, ap.to_node(&root).syntax() == &r, "a typed pointer finds something else");
            let can = E::can_cast(p.kind());
            ckeq!(cx, p.cast::<E>().is_some(), can, "cast of a pointer to kind {:?}", p.kind());
            ckeq!(cx, ap.clone().cast::<E>().is_some(), can, "cast of a typed pointer to kind {:?}", p.kind());
            if let Some(ep) = p.cast::<E>() {
                ck!(cx, ep.syntax_node_ptr() == p, "a cast pointer differs");
                ck!(cx, ep.try_to_node(&root).map(|it| it.syntax().clone()) == Some(r.clone()), "a cast pointer finds something else");
                ck!(cx, ap.clone().cast::<E>() == Some(ep.clone()), "casts differ");
                ckeq!(cx, hash_of(&ep), hash_of(&p.cast::<E>().unwrap()), "hash of a typed pointer");
            }
        }
        // other contents
        let root: api::SyntaxNode<L> = near.root.clone().into();
        let found = p.try_to_node(&root);
        ckeq!(cx, found.is_some(), near_count.contains_key(&key), "is element {} of {} found in {}", id, t.show(), t2.show());
        if let Some(r) = found {
            let at = near.locate(&el(&r.into()))?;
            ck!(cx, near_count[&key].contains(&at), "the pointer to element {} of {} finds element {} of {}", id, t.show(), at, t2.show());
            cx.count("found elsewhere");
        } else {
            ck!(cx, catch(|| p.to_node(&root)).is_err(), "to_node finds what is not there");
            cx.count("not found elsewhere");
        }
        // a subtree is a tree of its own
        let sub: api::SyntaxNode<L> = n.clone_subtree();
        let found = p.try_to_node(&sub);
        let there = (id..f.end[id] as usize).any(|it| f.is_node(it) && (f.kind[it], f.start[it] - f.start[id], f.stop(it) - f.start[id]) == key);
        ckeq!(cx, found.is_some(), there, "is element {} found in a copy of its own subtree", id);
        ptrs.push((p, key));
    }
    for (a, x) in &ptrs {
        for (b, y) in ptrs.iter().take(12) {
            ckeq!(cx, a == b, x == y, "equality of the pointers to {:?} and {:?}", x, y);
            if x == y {
                ckeq!(cx, hash_of(a), hash_of(b), "hash of equal pointers");
            }
            // typed pointers are equal as the untyped ones are
            ptr_pair::<L, A>(cx, a, b, x == y)?;
            ptr_pair::<L, E>(cx, a, b, x == y)?;
        }
    }
    Ok(())
}

fn ptr_pair<L: Language, A: AstNode<Language = L>>(cx: &mut Ctx, a: &SyntaxNodePtr<L>, b: &SyntaxNodePtr<L>, same: bool) -> R {
    let (Some(x), Some(y)) = (a.clone().cast::<A>(), b.clone().cast::<A>()) else {
        return Ok(());
    };
    ckeq!(cx, x == y, same, "equality of the typed pointers to {:?} and {:?}", a, b);
    ckeq!(cx, y == x, same, "equality of the typed pointers to {:?} and {:?}", b, a);
    if same {
        ckeq!(cx, hash_of(&x), hash_of(&y), "hash of equal typed pointers");
    }
    let copy = x.clone();
    ck!(cx, copy == x && copy.syntax_node_ptr() == *a, "a copy of the typed pointer to {:?}", a);
    cx.count(if same { "equal typed pointers" } else { "different typed pointers" });
    Ok(())
}

pub fn c20(cx: &mut Ctx, rng: &mut Rng) -> R {
    if rng.bool() {
        c20_with::<Raw, AnyRaw, EvenRaw>(cx, rng)
    } else {
        c20_with::<Odd, AnyOdd, EvenOdd>(cx, rng)
    }
}

pub fn c20_special(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    // huge offsets, deep and wide trees
    cx.sig(which as u64);
    let t: Arc<T> = match which {
        0 if !cx.tiny => crate::nav::huge_term(rng, false),
        1 => crate::term::chain(rng, if cx.tiny { 10 } else { 3000 }),
        _ => crate::term::wide(rng, if cx.tiny { 10 } else { 3000 }),
    };
    let g = crate::build::hashcons(&t, &mut HashMap::new(), &mut HashMap::new()).into_node().unwrap();
    let root: api::SyntaxNode<Odd> = api::SyntaxNode::new_root(g.clone());
    let other: api::SyntaxNode<Odd> = api::SyntaxNode::new_root(g);
    let mut seen: HashMap<(OddKind, TextRange), usize> = HashMap::new();
    let lim = if which == 1 { 400 } else { 3000 };
    let all: Vec<_> = root.descendants().take(20_000).collect();
    for n in &all {
        *seen.entry((n.kind(), n.text_range())).or_default() += 1;
    }
    for _ in 0..lim.min(all.len()) {
        let n = rng.pick(&all);
        if n.text_range().is_empty() && rng.pct(97) {
            // these take a walk through everything
            continue;
        }
        let p = SyntaxNodePtr::new(n);
        let r = p.try_to_node(&other).ok_or("nothing found")?;
        ckeq!(cx, (r.kind(), r.text_range()), (n.kind(), n.text_range()), "node found");
        if seen[&(n.kind(), n.text_range())] == 1 && all.len() < 20_000 {
            let path = |n: &api::SyntaxNode<Odd>| n.ancestors().map(|it| it.index()).collect::<Vec<_>>();
            ck!(cx, path(n) == path(&r), "another node found");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C21

type SE = api::SyntaxElement<Odd>;
type SN = api::SyntaxNode<Odd>;
type ST = api::SyntaxToken<Odd>;

/// Where, and what.
fn place(e: &cursor::SyntaxElement) -> (Vec<usize>, u16, bool) {
    let mut path = vec![];
    let mut cur = e.clone();
    while let Some(p) = cur.parent() {
        path.push(cur.index());
        cur = p.into();
    }
    (path, e.kind().0, e.as_node().is_some())
}

type P = (Vec<usize>, u16, bool);

fn rn(n: &cursor::SyntaxNode) -> P {
    place(&n.clone().into())
}
fn rt(n: &cursor::SyntaxToken) -> P {
    place(&n.clone().into())
}
fn tn(n: &SN) -> P {
    rn(&n.clone().into())
}
fn tt(n: &ST) -> P {
    rt(&n.clone().into())
}
fn te(e: &SE) -> P {
    place(&e.clone().into())
}

macro_rules! same {
    ($cx:expr, $raw:expr, $typed:expr, $what:expr) => {
        ckeq!($cx, $typed, $raw, "typed {}", $what)
    };
}

fn off<T, U>(t: TokenAtOffset<T>, f: impl Fn(T) -> U) -> Vec<U> {
    t.map(f).collect()
}

fn ev<T, U>(e: WalkEvent<T>, f: impl Fn(&T) -> U) -> (bool, U) {
    match e {
        WalkEvent::Enter(it) => (true, f(&it)),
        WalkEvent::Leave(it) => (false, f(&it)),
    }
}

pub fn typed_node(cx: &mut Ctx, rng: &mut Rng, r: &cursor::SyntaxNode) -> R {
    let t: SN = r.clone().into();
    let back: cursor::SyntaxNode = t.clone().into();
    ck!(cx, &back == r && hash_of(&back) == hash_of(r), "conversion to typed and back loses identity");
    let t2: SN = back.into();
    ck!(cx, t2 == t && hash_of(&t2) == hash_of(&t), "typed handles to the same node differ");
    ckeq!(cx, t.kind(), Odd::kind_from_raw(r.kind()), "typed kind");
    ckeq!(cx, Odd::kind_to_raw(t.kind()), r.kind(), "kind translated back");
    same!(cx, r.text_range(), t.text_range(), "text_range");
    if r.parent().is_some() {
        same!(cx, r.index(), t.index(), "index");
    }
    same!(cx, r.text().to_string(), t.text().to_string(), "text");
    same!(cx, r.to_string(), t.to_string(), "display");
    ck!(cx, r.green() == t.green(), "typed green differs");
    same!(cx, r.is_mutable(), t.is_mutable(), "is_mutable");
    same!(cx, r.parent().map(|it| rn(&it)), t.parent().map(|it| tn(&it)), "parent");
    same!(cx, r.ancestors().map(|it| rn(&it)).collect::<Vec<_>>(), t.ancestors().map(|it| tn(&it)).collect::<Vec<_>>(), "ancestors");
    same!(cx, r.children().map(|it| rn(&it)).collect::<Vec<_>>(), t.children().map(|it| tn(&it)).collect::<Vec<_>>(), "children");
    same!(
        cx,
        r.children_with_tokens().map(|it| place(&it)).collect::<Vec<_>>(),
        t.children_with_tokens().map(|it| te(&it)).collect::<Vec<_>>(),
        "children_with_tokens"
    );
    same!(cx, r.first_child().map(|it| rn(&it)), t.first_child().map(|it| tn(&it)), "first_child");
    same!(cx, r.last_child().map(|it| rn(&it)), t.last_child().map(|it| tn(&it)), "last_child");
    same!(cx, r.first_child_or_token().map(|it| place(&it)), t.first_child_or_token().map(|it| te(&it)), "first_child_or_token");
    same!(cx, r.last_child_or_token().map(|it| place(&it)), t.last_child_or_token().map(|it| te(&it)), "last_child_or_token");
    same!(cx, r.next_sibling().map(|it| rn(&it)), t.next_sibling().map(|it| tn(&it)), "next_sibling");
    same!(cx, r.prev_sibling().map(|it| rn(&it)), t.prev_sibling().map(|it| tn(&it)), "prev_sibling");
    same!(cx, r.next_sibling_or_token().map(|it| place(&it)), t.next_sibling_or_token().map(|it| te(&it)), "next_sibling_or_token");
    same!(cx, r.prev_sibling_or_token().map(|it| place(&it)), t.prev_sibling_or_token().map(|it| te(&it)), "prev_sibling_or_token");
    same!(cx, r.first_token().map(|it| rt(&it)), t.first_token().map(|it| tt(&it)), "first_token");
    same!(cx, r.last_token().map(|it| rt(&it)), t.last_token().map(|it| tt(&it)), "last_token");
    for d in [Direction::Next, Direction::Prev] {
        same!(cx, r.siblings(d).map(|it| rn(&it)).collect::<Vec<_>>(), t.siblings(d).map(|it| tn(&it)).collect::<Vec<_>>(), "siblings");
        same!(
            cx,
            r.siblings_with_tokens(d).map(|it| place(&it)).collect::<Vec<_>>(),
            t.siblings_with_tokens(d).map(|it| te(&it)).collect::<Vec<_>>(),
            "siblings_with_tokens"
        );
    }
    same!(cx, r.descendants().map(|it| rn(&it)).collect::<Vec<_>>(), t.descendants().map(|it| tn(&it)).collect::<Vec<_>>(), "descendants");
    same!(
        cx,
        r.descendants_with_tokens().map(|it| place(&it)).collect::<Vec<_>>(),
        t.descendants_with_tokens().map(|it| te(&it)).collect::<Vec<_>>(),
        "descendants_with_tokens"
    );
    // walks, with subtrees skipped in the same places
    let skip: Vec<bool> = (0..400).map(|_| rng.pct(25)).collect();
    let (mut a, mut b, mut i) = (r.preorder(), t.preorder(), 0);
    loop {
        let (x, y) = (a.next(), b.next());
        let enter = matches!(x, Some(WalkEvent::Enter(_)));
        let done = x.is_none();
        same!(cx, x.map(|it| ev(it, rn)), y.map(|it| ev(it, tn)), "preorder");
        if done {
            break;
        }
        if enter && skip[i % skip.len()] {
            a.skip_subtree();
            b.skip_subtree();
        }
        i += 1;
    }
    let (mut a, mut b, mut i) = (r.preorder_with_tokens(), t.preorder_with_tokens(), 0);
    loop {
        let (x, y) = (a.next(), b.next());
        let enter = matches!(x, Some(WalkEvent::Enter(_)));
        let done = x.is_none();
        same!(cx, x.map(|it| ev(it, place)), y.map(|it| ev(it, te)), "preorder_with_tokens");
        if done {
            break;
        }
        if enter && skip[i % skip.len()] {
            a.skip_subtree();
            b.skip_subtree();
        }
        i += 1;
    }
    // lookups
    let range = r.text_range();
    let at = range.start() + ts(rng.below(u32::from(range.len()) as usize + 1) as u64);
    same!(cx, off(r.token_at_offset(at), |it| rt(&it)), off(t.token_at_offset(at), |it| tt(&it)), "token_at_offset");
    let to = at + ts(rng.below(u32::from(range.end() - at) as usize + 1) as u64);
    let sub = TextRange::new(at, to);
    same!(cx, place(&r.covering_element(sub)), te(&t.covering_element(sub)), "covering_element");
    same!(cx, r.child_or_token_at_range(sub).map(|it| place(&it)), t.child_or_token_at_range(sub).map(|it| te(&it)), "child_or_token_at_range");
    // by kind: the matcher sees exactly the translated kinds, in the same order
    let m = rng.u64();
    let want = |k: u16| m >> (crate::rng::mix(k as u64) & 63) & 1 == 1;
    let seen_raw: std::cell::RefCell<Vec<u16>> = Default::default();
    let seen_typed: std::cell::RefCell<Vec<u16>> = Default::default();
    let mr = |k: SyntaxKind| {
        seen_raw.borrow_mut().push(k.0);
        want(k.0)
    };
    let mt = |k: OddKind| {
        let k = Odd::kind_to_raw(k).0;
        seen_typed.borrow_mut().push(k);
        want(k)
    };
    same!(cx, r.first_child_by_kind(&mr).map(|it| rn(&it)), t.first_child_by_kind(&mt).map(|it| tn(&it)), "first_child_by_kind");
    same!(cx, r.first_child_or_token_by_kind(&mr).map(|it| place(&it)), t.first_child_or_token_by_kind(&mt).map(|it| te(&it)), "first_child_or_token_by_kind");
    same!(cx, r.next_sibling_by_kind(&mr).map(|it| rn(&it)), t.next_sibling_by_kind(&mt).map(|it| tn(&it)), "next_sibling_by_kind");
    same!(
        cx,
        r.next_sibling_or_token_by_kind(&mr).map(|it| place(&it)),
        t.next_sibling_or_token_by_kind(&mt).map(|it| te(&it)),
        "next_sibling_or_token_by_kind"
    );
    let k = rng.below(3);
    let (mut a, mut b) = (r.children(), t.children());
    for _ in 0..k {
        same!(cx, a.next().map(|it| rn(&it)), b.next().map(|it| tn(&it)), "children");
    }
    let b2 = b.clone();
    same!(cx, a.by_kind(mr).map(|it| rn(&it)).collect::<Vec<_>>(), b.by_kind(mt).map(|it| tn(&it)).collect::<Vec<_>>(), "children by_kind");
    same!(cx, r.children().skip(k).map(|it| rn(&it)).collect::<Vec<_>>(), b2.map(|it| tn(&it)).collect::<Vec<_>>(), "cloned children");
    let (mut a, mut b) = (r.children_with_tokens(), t.children_with_tokens());
    for _ in 0..k {
        same!(cx, a.next().map(|it| place(&it)), b.next().map(|it| te(&it)), "children_with_tokens");
    }
    same!(cx, a.by_kind(mr).map(|it| place(&it)).collect::<Vec<_>>(), b.by_kind(mt).map(|it| te(&it)).collect::<Vec<_>>(), "children_with_tokens by_kind");
    {
        let mut a = seen_raw.borrow().clone();
        let mut b = seen_typed.borrow().clone();
        a.sort_unstable();
        a.dedup();
        b.sort_unstable();
        b.dedup();
        ckeq!(cx, b, a, "kinds shown to a typed matcher");
    }
    // copies
    let c: SN = t.clone_subtree();
    ck!(cx, !c.is_mutable() && c.parent().is_none() && c.green() == r.green(), "typed clone_subtree");
    if !r.is_mutable() {
        let (x, y) = (r.clone_for_update(), t.clone_for_update());
        ck!(cx, y.is_mutable(), "typed clone_for_update");
        same!(cx, rn(&x), tn(&y), "clone_for_update");
        ck!(cx, x.ancestors().last().map(|it| it.green().into_owned()) == y.ancestors().last().map(|it| it.green().into_owned()), "typed clone_for_update");
        let g = GreenNode::new(r.kind(), vec![NodeOrToken::Token(GreenToken::new(sk(4), "sub")) as GreenEl]);
        ck!(cx, r.replace_with(g.clone()) == t.replace_with(g), "typed replace_with");
        // the same edits, typed and untyped
        let n = x.green().children().len();
        let (i, j) = {
            let i = rng.below(n + 1);
            (i, rng.range(i, n))
        };
        let new = rand_term(rng, 4);
        let e1 = fresh_mut(&new);
        let e2: SE = fresh_mut(&new).into();
        x.splice_children(i..j, Some(e1));
        y.splice_children(i..j, Some(e2.clone()));
        ck!(cx, x.ancestors().last().map(|it| it.green().into_owned()) == y.ancestors().last().map(|it| it.green().into_owned()), "typed splice_children");
        let after = x.green().children().len();
        if after > 0 {
            let k = rng.below(after);
            let a = x.children_with_tokens().nth(k).unwrap();
            let b = y.children_with_tokens().nth(k).unwrap();
            a.detach();
            match b {
                NodeOrToken::Node(it) if rng.bool() => it.detach(),
                NodeOrToken::Token(it) if rng.bool() => it.detach(),
                b => b.detach(),
            }
            ck!(cx, x.green() == y.green(), "typed detach");
        }
        let (a, b) = (x.ancestors().last(), y.ancestors().last());
        x.detach();
        y.detach();
        ck!(cx, a.map(|it| it.green().into_owned()) == b.map(|it| it.green().into_owned()), "typed node detach");
        ck!(cx, y.parent().is_none(), "typed node detach");
    }
    cx.count("nodes compared");
    Ok(())
}

pub fn typed_token(cx: &mut Ctx, r: &cursor::SyntaxToken) -> R {
    let t: ST = r.clone().into();
    let back: cursor::SyntaxToken = t.clone().into();
    ck!(cx, &back == r && hash_of(&back) == hash_of(r), "conversion of a token to typed and back loses identity");
    let t2: ST = back.into();
    ck!(cx, t2 == t && hash_of(&t2) == hash_of(&t), "typed handles to the same token differ");
    ckeq!(cx, t.kind(), Odd::kind_from_raw(r.kind()), "typed token kind");
    same!(cx, r.text_range(), t.text_range(), "token text_range");
    if r.parent().is_some() {
        same!(cx, r.index(), t.index(), "token index");
    }
    same!(cx, r.text(), t.text(), "token text");
    same!(cx, r.to_string(), t.to_string(), "token display");
    ck!(cx, std::ptr::eq(r.green(), t.green()), "typed token green differs");
    same!(cx, r.parent().map(|it| rn(&it)), t.parent().map(|it| tn(&it)), "token parent");
    same!(cx, r.ancestors().map(|it| rn(&it)).collect::<Vec<_>>(), t.parent_ancestors().map(|it| tn(&it)).collect::<Vec<_>>(), "parent_ancestors");
    #[allow(deprecated)]
    let anc = t.ancestors().map(|it| tn(&it)).collect::<Vec<_>>();
    same!(cx, r.ancestors().map(|it| rn(&it)).collect::<Vec<_>>(), anc, "token ancestors");
    same!(cx, r.next_sibling_or_token().map(|it| place(&it)), t.next_sibling_or_token().map(|it| te(&it)), "token next_sibling_or_token");
    same!(cx, r.prev_sibling_or_token().map(|it| place(&it)), t.prev_sibling_or_token().map(|it| te(&it)), "token prev_sibling_or_token");
    for d in [Direction::Next, Direction::Prev] {
        same!(
            cx,
            r.siblings_with_tokens(d).map(|it| place(&it)).collect::<Vec<_>>(),
            t.siblings_with_tokens(d).map(|it| te(&it)).collect::<Vec<_>>(),
            "token siblings_with_tokens"
        );
    }
    same!(cx, r.next_token().map(|it| rt(&it)), t.next_token().map(|it| tt(&it)), "next_token");
    same!(cx, r.prev_token().map(|it| rt(&it)), t.prev_token().map(|it| tt(&it)), "prev_token");
    if r.parent().is_some() {
        let g = GreenToken::new(r.kind(), "sub");
        ck!(cx, r.replace_with(g.clone()) == t.replace_with(g), "typed token replace_with");
    }
    cx.count("tokens compared");
    Ok(())
}

pub fn typed_element(cx: &mut Ctx, r: &cursor::SyntaxElement) -> R {
    let t: SE = r.clone().into();
    let back: cursor::SyntaxElement = t.clone().into();
    ck!(cx, &back == r, "conversion of an element to typed and back loses identity");
    ckeq!(cx, t.kind(), Odd::kind_from_raw(r.kind()), "typed element kind");
    same!(cx, r.text_range(), t.text_range(), "element text_range");
    if r.parent().is_some() {
        same!(cx, r.index(), t.index(), "element index");
    }
    same!(cx, r.parent().map(|it| rn(&it)), t.parent().map(|it| tn(&it)), "element parent");
    same!(cx, r.ancestors().map(|it| rn(&it)).collect::<Vec<_>>(), t.ancestors().map(|it| tn(&it)).collect::<Vec<_>>(), "element ancestors");
    same!(cx, r.next_sibling_or_token().map(|it| place(&it)), t.next_sibling_or_token().map(|it| te(&it)), "element next_sibling_or_token");
    same!(cx, r.prev_sibling_or_token().map(|it| place(&it)), t.prev_sibling_or_token().map(|it| te(&it)), "element prev_sibling_or_token");
    match (r, &t) {
        (NodeOrToken::Node(n), NodeOrToken::Node(t)) => {
            let a: SN = n.clone().into();
            ck!(cx, SE::from(t.clone()) == SE::from(a), "element from node")
        }
        (NodeOrToken::Token(n), NodeOrToken::Token(t)) => {
            let a: ST = n.clone().into();
            ck!(cx, SE::from(t.clone()) == SE::from(a), "element from token")
        }
        _ => return Err("typed: node and token confused".into()),
    }
    Ok(())
}

pub fn ast_at(cx: &mut Ctx, tree: &Tree, id: usize, r: &cursor::SyntaxNode) -> R {
    let f = &tree.flat;
    let n: SN = r.clone().into();
    fn want<A: Is>(f: &Flat, id: usize) -> Vec<usize> {
        f.kids[id].iter().map(|it| *it as usize).filter(|it| f.is_node(*it) && A::is(f, *it)).collect()
    }
    fn check<A: AstNode<Language = Odd> + Clone + Is>(cx: &mut Ctx, tree: &Tree, id: usize, n: &SN) -> R {
        let f = &tree.flat;
        let want = want::<A>(f, id);
        let loc = |a: &A| tree.locate(&el(&a.syntax().clone().into()));
        let it: AstChildren<A> = support::children(n);
        let mut it2 = it.clone();
        let got = it.map(|a| loc(&a)).collect::<R<Vec<_>>>()?;
        ckeq!(cx, got, want, "children of a type below element {} of {}", id, tree.term.show());
        let first = it2.next().map(|a| loc(&a)).transpose()?;
        ckeq!(cx, first, want.first().copied(), "first of the children of a type");
        let it3 = it2.clone();
        let rest = it2.map(|a| loc(&a)).collect::<R<Vec<_>>>()?;
        ckeq!(cx, rest, want.get(1..).unwrap_or(&[]).to_vec(), "rest of the children of a type");
        let rest = it3.map(|a| loc(&a)).collect::<R<Vec<_>>>()?;
        ckeq!(cx, rest, want.get(1..).unwrap_or(&[]).to_vec(), "rest of the cloned children of a type");
        let c: Option<A> = support::child(n);
        ckeq!(cx, c.map(|a| loc(&a)).transpose()?, want.first().copied(), "first child of a type below element {} of {}", id, tree.term.show());
        if let Some(a) = A::cast(n.clone()) {
            ck!(cx, a.syntax() == n, "a cast changes the node");
            let s = a.clone_subtree();
            ck!(cx, s.syntax().green() == n.green() && s.syntax().parent().is_none() && !s.syntax().is_mutable(), "typed clone_subtree");
            if !n.is_mutable() {
                let m = a.clone_for_update();
                ck!(cx, m.syntax().is_mutable(), "a typed mutable clone is not mutable");
                ckeq!(cx, tn(m.syntax()), tn(n), "place of a typed mutable clone");
                ckeq!(cx, m.syntax().text_range(), n.text_range(), "range of a typed mutable clone");
                let top = m.syntax().ancestors().last().unwrap();
                ck!(cx, top.green().into_owned() == tree.root.green().into_owned(), "contents of a typed mutable clone");
            }
        } else {
            ck!(cx, !A::is(f, id), "cast and can_cast differ");
        }
        Ok(())
    }
    check::<AnyOdd>(cx, tree, id, &n)?;
    check::<EvenOdd>(cx, tree, id, &n)?;
    check::<ThirdOdd>(cx, tree, id, &n)?;
    check::<FullOdd>(cx, tree, id, &n)?;
    check::<LongOdd>(cx, tree, id, &n)?;
    let mut kinds: Vec<u16> = f.kids[id].iter().map(|it| f.kind[*it as usize]).collect();
    kinds.push(f.kind[id]);
    kinds.push(0);
    kinds.sort_unstable();
    kinds.dedup();
    for k in kinds.into_iter().take(20) {
        let want = f.kids[id].iter().map(|it| *it as usize).find(|it| !f.is_node(*it) && f.kind[*it] == k);
        let got = support::token(&n, Odd::kind_from_raw(SyntaxKind(k)));
        let got = got.map(|it| tree.locate(&cursor::SyntaxElement::from(cursor::SyntaxToken::from(it)))).transpose()?;
        ckeq!(cx, got, want, "first token of kind {} below element {} of {}", k, id, tree.term.show());
    }
    cx.count("ast helpers");
    Ok(())
}

pub fn c21(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = *rng.pick(&[6, 15, 30, 60]);
    let tree = setup(cx, rng, Pick::Any, budget)?;
    for id in ids(rng, &tree.flat, if cx.tiny { 2 } else { 14 }) {
        let e = if rng.bool() { tree.at(id)? } else { tree.reach(rng, id)? };
        typed_element(cx, &e)?;
        match &e {
            NodeOrToken::Node(n) => {
                typed_node(cx, rng, n)?;
                ast_at(cx, &tree, id, n)?;
            }
            NodeOrToken::Token(t) => typed_token(cx, t)?,
        }
    }
    // typed roots
    let g = tree.root.green().into_owned();
    let a: SN = SN::new_root(g.clone());
    let b: SN = SN::new_root_mut(g.clone());
    ck!(cx, !a.is_mutable() && b.is_mutable(), "mutability of typed roots");
    ck!(cx, a.green().into_owned() == g && b.green().into_owned() == g, "green tree of typed roots");
    same_tree(&a.into(), &tree.term)?;
    // typed iteration with removal
    let n = b.children_with_tokens().count();
    let seen = Cell::new(0);
    b.children_with_tokens().for_each(|it| {
        seen.set(seen.get() + 1);
        it.detach();
    });
    ckeq!(cx, seen.get(), n, "elements seen while removing them");
    ckeq!(cx, b.children_with_tokens().count(), 0, "children after removing all");
    Ok(())
}
