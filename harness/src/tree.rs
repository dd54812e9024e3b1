//! Syntax trees over reference trees, in every flavor, and random routes to elements.
use std::sync::Arc;

use rowan::{
    cursor::{SyntaxElement, SyntaxNode, SyntaxToken},
    GreenNode, NodeCache, NodeOrToken, TextRange, TextSize, TokenAtOffset, WalkEvent,
};

use crate::{
    build::{bottom_up, build, node_of, GreenEl},
    rng::Rng,
    term::{rand_term, Flat, T},
    util::R,
};

pub struct Tree {
    pub root: SyntaxNode,
    pub flat: Flat,
    pub term: Arc<T>,
    pub flavor: &'static str,
    /// Handles into the tree, held just to be in the way.
    pub keep: Vec<SyntaxElement>,
    /// Handles to elsewhere: junk that was removed, former parents.
    pub other: Vec<SyntaxElement>,
}

pub fn ts(x: u64) -> TextSize {
    TextSize::from(x as u32)
}

pub fn rng_of(f: &Flat, id: usize) -> TextRange {
    TextRange::new(ts(f.start[id]), ts(f.stop(id)))
}

pub fn el(n: &SyntaxNode) -> SyntaxElement {
    NodeOrToken::Node(n.clone())
}

pub fn child_at(n: &SyntaxNode, i: usize) -> Option<SyntaxElement> {
    n.children_with_tokens().nth(i)
}

pub fn is_mut(e: &SyntaxElement) -> bool {
    match e {
        NodeOrToken::Node(it) => it.is_mutable(),
        NodeOrToken::Token(it) => it.parent().map_or(true, |it| it.is_mutable()),
    }
}

impl Tree {
    /// Where in the tree is `e`, judging by its indices and parents?
    pub fn locate(&self, e: &SyntaxElement) -> R<usize> {
        locate_in(&self.root, &self.flat, e)
    }

    /// The canonical handle: straight down from the root.
    pub fn at(&self, id: usize) -> R<SyntaxElement> {
        let mut cur = el(&self.root);
        for i in self.flat.path(id) {
            let n = cur.into_node().ok_or_else(|| "a token where a node is expected".to_string())?;
            cur = child_at(&n, i).ok_or_else(|| format!("child {} is missing", i))?;
        }
        Ok(cur)
    }

    pub fn node_at(&self, id: usize) -> R<SyntaxNode> {
        self.at(id)?.into_node().ok_or_else(|| format!("element {} is not a node", id))
    }

    /// A handle to element `id`, obtained in a roundabout way.
    pub fn reach(&self, rng: &mut Rng, id: usize) -> R<SyntaxElement> {
        let f = &self.flat;
        let miss = |what: &str| format!("{} does not lead to element {} of {}", what, id, self.term.show());
        let res = match rng.below(8) {
            0 | 1 => {
                // down, choosing a way to the right child at every level
                let mut cur = el(&self.root);
                for i in f.path(id) {
                    let n = cur.into_node().ok_or_else(|| miss("down"))?;
                    let count = f_child_count(&n);
                    cur = match rng.below(4) {
                        0 => child_at(&n, i).ok_or_else(|| miss("children_with_tokens"))?,
                        1 if i < 200 => {
                            let mut e = n.first_child_or_token().ok_or_else(|| miss("first_child_or_token"))?;
                            for _ in 0..i {
                                e = e.next_sibling_or_token().ok_or_else(|| miss("next_sibling_or_token"))?;
                            }
                            e
                        }
                        2 if count - 1 - i < 200 => {
                            let mut e = n.last_child_or_token().ok_or_else(|| miss("last_child_or_token"))?;
                            for _ in 0..count - 1 - i {
                                e = e.prev_sibling_or_token().ok_or_else(|| miss("prev_sibling_or_token"))?;
                            }
                            e
                        }
                        _ => {
                            let mut it = n.children_with_tokens();
                            let mut held = Vec::new();
                            for _ in 0..i.min(50) {
                                held.push(it.next());
                            }
                            it.nth(i - i.min(50)).ok_or_else(|| miss("children_with_tokens"))?
                        }
                    };
                }
                cur
            }
            2 => self.root.descendants_with_tokens().nth(id).ok_or_else(|| miss("descendants_with_tokens"))?,
            3 => {
                // from a descendant up
                let end = f.end[id] as usize;
                let low = rng.range(id, (end - 1).min(id + 40));
                let mut e = self.at(low)?;
                let mut cur = low;
                while cur != id {
                    e = el(&e.parent().ok_or_else(|| miss("parent"))?);
                    cur = f.parent(cur).unwrap();
                }
                e
            }
            4 => {
                let e = self.at(id)?;
                let anc = match &e {
                    NodeOrToken::Node(it) => it.ancestors().last(),
                    NodeOrToken::Token(it) => it.ancestors().last(),
                };
                let top = anc.ok_or_else(|| miss("ancestors"))?;
                let mut k = 0;
                let mut found = None;
                for ev in top.preorder_with_tokens() {
                    if let WalkEvent::Enter(x) = ev {
                        if k == id {
                            found = Some(x);
                            break;
                        }
                        k += 1;
                    }
                }
                found.ok_or_else(|| miss("preorder_with_tokens"))?
            }
            5 if !f.is_node(id) && f.len[id] > 0 => {
                let off = f.start[id] + if f.len[id] > 1 { 1 + rng.below(f.len[id] as usize - 1) as u64 } else { 0 };
                if f.len[id] == 1 {
                    match self.root.token_at_offset(ts(off)) {
                        TokenAtOffset::Single(it) => it.into(),
                        TokenAtOffset::Between(_, it) => it.into(),
                        TokenAtOffset::None => return Err(miss("token_at_offset")),
                    }
                } else {
                    match self.root.token_at_offset(ts(off)) {
                        TokenAtOffset::Single(it) => it.into(),
                        _ => return Err(miss("token_at_offset")),
                    }
                }
            }
            6 if f.len[id] > 0 && f.parent(id).map_or(true, |p| f.kids[p].len() > 1 && f.len[p] > f.len[id]) => {
                // an element that covers its range, and then down or up along single children
                let e = self.root.covering_element(rng_of(f, id));
                let mut cur = e;
                loop {
                    if self.locate(&cur)? <= id {
                        break;
                    }
                    match cur.parent() {
                        Some(p) => cur = el(&p),
                        None => break,
                    }
                }
                if self.locate(&cur)? != id {
                    self.at(id)?
                } else {
                    cur
                }
            }
            _ => self.at(id)?,
        };
        let got = self.locate(&res)?;
        if got != id {
            return Err(format!("asked for element {}, reached {} in {}", id, got, self.term.show()));
        }
        Ok(res)
    }

    /// Takes some handles and holds on to them.
    pub fn crowd(&mut self, rng: &mut Rng, n: usize) -> R {
        for _ in 0..n {
            let id = rng.below(self.flat.n());
            let e = self.at(id)?;
            self.keep.push(e);
        }
        Ok(())
    }
}

pub fn f_child_count(n: &SyntaxNode) -> usize {
    n.green().children().len()
}

pub fn locate_in(root: &SyntaxNode, f: &Flat, e: &SyntaxElement) -> R<usize> {
    let mut path = Vec::new();
    let mut cur = e.clone();
    while let Some(p) = cur.parent() {
        path.push(cur.index());
        cur = p.into();
        if path.len() > f.n() + 8 {
            return Err("the chain of parents is longer than the tree".into());
        }
    }
    if cur.as_node() != Some(root) {
        return Err("the element is not in the tree".into());
    }
    let mut id = 0;
    for i in path.iter().rev() {
        id = f.kid(id, *i).ok_or_else(|| format!("no child {} in element {}", i, id))?;
    }
    if e.as_node().is_some() != f.is_node(id) {
        return Err(format!("element {}: node and token confused", id));
    }
    if e.kind().0 != f.kind[id] {
        return Err(format!("element {} has kind {} instead of {}", id, e.kind().0, f.kind[id]));
    }
    Ok(id)
}

/// Does the syntax tree below `n` spell out `t`? (Structure, kinds and texts only.)
pub fn same_tree(n: &SyntaxNode, t: &T) -> R {
    let T::N(k, kids) = t else {
        return Err("a node where a token is expected".into());
    };
    if n.kind().0 != *k {
        return Err(format!("kind {} instead of {}", n.kind().0, k));
    }
    let mut i = 0;
    for c in n.children_with_tokens() {
        let Some(want) = kids.get(i) else {
            return Err(format!("node of kind {} has more than {} children", k, kids.len()));
        };
        i += 1;
        match (&c, &**want) {
            (NodeOrToken::Node(c), T::N(..)) => same_tree(c, want)?,
            (NodeOrToken::Token(c), T::K(k, s)) => {
                if c.kind().0 != *k || c.text() != &**s {
                    return Err(format!("token {} {:?} instead of {} {:?}", c.kind().0, crate::util::clip(c.text(), 60), k, crate::util::clip(s, 60)));
                }
            }
            _ => return Err(format!("child {} of kind {}: node and token confused", i - 1, k)),
        }
    }
    if i != kids.len() {
        return Err(format!("node of kind {} has {} children instead of {}", k, i, kids.len()));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Pick {
    Any,
    Immutable,
    Mutable,
}

/// A mutable handle to a new, parentless element of that content.
pub fn fresh_mut(t: &T) -> SyntaxElement {
    match bottom_up(t) {
        NodeOrToken::Node(g) => SyntaxNode::new_root_mut(g).into(),
        NodeOrToken::Token(g) => {
            let p = GreenNode::new(rowan::SyntaxKind(77), vec![NodeOrToken::Token(g) as GreenEl]);
            let p = SyntaxNode::new_root_mut(p);
            let tok = p.first_child_or_token().unwrap();
            tok.detach();
            tok
        }
    }
}

enum Slot {
    Keep(Arc<T>),
    Missing(Arc<T>),
    Junk(Arc<T>),
}

fn initial(rng: &mut Rng, t: &T, p: usize, plans: &mut Vec<Vec<Slot>>) -> Arc<T> {
    match t {
        T::K(k, s) => Arc::new(T::K(*k, s.clone())),
        T::N(k, kids) => {
            let my = plans.len();
            plans.push(Vec::new());
            let mut slots = Vec::new();
            let mut start = Vec::new();
            for it in kids {
                if rng.pct(p) && slots.len() < 40 {
                    let junk = if rng.bool() { Arc::new(T::K(900, rng.pick(&["junk", "", "é"]).to_string().into())) } else { rand_term(rng, 6) };
                    start.push(junk.clone());
                    slots.push(Slot::Junk(junk));
                }
                if rng.pct(p) {
                    slots.push(Slot::Missing(it.clone()));
                } else {
                    start.push(initial(rng, it, p, plans));
                    slots.push(Slot::Keep(it.clone()));
                }
            }
            if rng.pct(p) {
                let junk = Arc::new(T::K(901, "end".into()));
                start.push(junk.clone());
                slots.push(Slot::Junk(junk));
            }
            plans[my] = slots;
            Arc::new(T::N(*k, start))
        }
    }
}

fn repair(rng: &mut Rng, n: &SyntaxNode, plans: &mut std::vec::IntoIter<Vec<Slot>>, keep: &mut Vec<SyntaxElement>, other: &mut Vec<SyntaxElement>) -> R {
    let plan = plans.next().ok_or("plan missing")?;
    let total = f_child_count(n);
    for _ in 0..rng.below(4) {
        if total > 0 {
            keep.extend(child_at(n, rng.below(total)));
        }
    }
    let mut i = 0;
    let mut kept = Vec::new();
    for slot in &plan {
        match slot {
            Slot::Keep(_) => {
                kept.push(i);
                i += 1;
            }
            Slot::Junk(_) => {
                if rng.bool() {
                    let c = child_at(n, i).ok_or("child to remove is missing")?;
                    c.detach();
                    keep.retain(|it| it != &c);
                    if rng.bool() {
                        other.push(c);
                    }
                } else {
                    let c = child_at(n, i).ok_or("child to remove is missing")?;
                    keep.retain(|it| it != &c);
                    n.splice_children(i..i + 1, Vec::new());
                }
            }
            Slot::Missing(t) => {
                let e = fresh_mut(t);
                n.splice_children(i..i, vec![e.clone()]);
                if rng.bool() {
                    keep.push(e);
                }
                i += 1;
            }
        }
    }
    for i in kept {
        if let Some(NodeOrToken::Node(c)) = child_at(n, i) {
            repair(rng, &c, plans, keep, other)?;
        }
    }
    Ok(())
}

pub fn make_tree(rng: &mut Rng, term: &Arc<T>, pick: Pick, cache: Option<&mut NodeCache>) -> R<Tree> {
    let flat = Flat::new(term);
    let small = flat.n() <= 600;
    let (lo, hi) = match pick {
        Pick::Any => (0, 9),
        Pick::Immutable => (0, 3),
        Pick::Mutable => (4, 9),
    };
    let mut flavor = rng.range(lo, hi);
    if !small && flavor >= 8 {
        flavor = 5;
    }
    let mut keep = Vec::new();
    let mut other = Vec::new();
    // the same content somewhere inside a bigger tree
    let wrap = |rng: &mut Rng| -> (Arc<T>, usize) {
        let mut kids = Vec::new();
        for _ in 0..rng.below(3) {
            kids.push(if rng.bool() { rand_term(rng, 5) } else { Arc::new(T::K(5, "pre".into())) });
        }
        let at = kids.len();
        kids.push(term.clone());
        for _ in 0..rng.below(3) {
            kids.push(if rng.bool() { rand_term(rng, 5) } else { Arc::new(T::K(5, "post".into())) });
        }
        (Arc::new(T::N(60, kids)), at)
    };
    let (root, name) = match flavor {
        0 | 1 => (SyntaxNode::new_root(build(rng, term, cache).0), "immutable"),
        2 => {
            let (w, at) = wrap(rng);
            let r = SyntaxNode::new_root(node_of(&w));
            let n = child_at(&r, at).and_then(|it| it.into_node()).ok_or("wrapped node is missing")?;
            (n.clone_subtree(), "subtree copy")
        }
        3 => {
            let m = SyntaxNode::new_root_mut(build(rng, term, cache).0);
            if rng.bool() {
                other.push(el(&m));
            }
            (m.clone_subtree(), "copy of a mutable tree")
        }
        4 | 5 => (SyntaxNode::new_root_mut(build(rng, term, cache).0), "mutable"),
        6 => (SyntaxNode::new_root(build(rng, term, cache).0).clone_for_update(), "mutable clone"),
        7 => {
            let r = SyntaxNode::new_root(build(rng, term, cache).0);
            let found = r.descendants().nth(rng.below(flat.n()));
            let n = found.unwrap_or(r);
            let m = n.clone_for_update();
            keep.push(el(&m));
            (m.ancestors().last().ok_or("no ancestors")?, "mutable clone of an inner node")
        }
        8 => {
            let (w, at) = wrap(rng);
            let r = SyntaxNode::new_root_mut(node_of(&w));
            let n = child_at(&r, at).and_then(|it| it.into_node()).ok_or("wrapped node is missing")?;
            for _ in 0..rng.below(3) {
                keep.extend(n.descendants_with_tokens().nth(rng.below(flat.n())));
            }
            n.detach();
            if rng.bool() {
                other.push(el(&r));
            }
            (n, "detached")
        }
        _ => {
            let mut plans = Vec::new();
            let p = *rng.pick(&[5, 20, 50]);
            let init = initial(rng, term, p, &mut plans);
            let r = SyntaxNode::new_root_mut(build(rng, &init, cache).0);
            repair(rng, &r, &mut plans.into_iter(), &mut keep, &mut other)?;
            (r, "edited")
        }
    };
    if rng.bool() {
        keep.clear();
    }
    let mut tree = Tree { root, flat, term: term.clone(), flavor: name, keep, other };
    if small {
        same_tree(&tree.root, term).map_err(|e| format!("{} tree: {}", name, e))?;
    }
    if rng.pct(60) && tree.flat.n() < 3000 {
        let n = rng.below(8);
        tree.crowd(rng, n)?;
    }
    Ok(tree)
}

pub fn tok(e: &SyntaxElement) -> Option<&SyntaxToken> {
    e.as_token()
}
