//! From reference trees to green trees, by every route the API offers, and back.
use std::{collections::HashMap, sync::Arc};

use rowan::{Checkpoint, GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, NodeCache, NodeOrToken, SyntaxKind, TextSize};

use crate::{rng::Rng, term::T, util::R};

pub type GreenEl = NodeOrToken<GreenNode, GreenToken>;

pub fn sk(k: u16) -> SyntaxKind {
    SyntaxKind(k)
}

/// Directly from the children, sharing nothing.
pub fn bottom_up(t: &T) -> GreenEl {
    match t {
        T::N(k, kids) => {
            let kids: Vec<_> = kids.iter().map(|it| bottom_up(it)).collect();
            NodeOrToken::Node(GreenNode::new(sk(*k), kids))
        }
        T::K(k, s) => NodeOrToken::Token(GreenToken::new(sk(*k), s)),
    }
}

pub fn node_of(t: &T) -> GreenNode {
    bottom_up(t).into_node().unwrap()
}

/// Directly from the children, sharing every repeated subtree, of any size.
pub fn hashcons(t: &Arc<T>, memo: &mut HashMap<*const T, GreenEl>, by_val: &mut HashMap<Arc<T>, GreenEl>) -> GreenEl {
    if let Some(it) = memo.get(&Arc::as_ptr(t)) {
        return it.clone();
    }
    if let Some(it) = by_val.get(t) {
        return it.clone();
    }
    let res = match &**t {
        T::N(k, kids) => {
            let kids: Vec<_> = kids.iter().map(|it| hashcons(it, memo, by_val)).collect();
            NodeOrToken::Node(GreenNode::new(sk(*k), kids))
        }
        T::K(k, s) => NodeOrToken::Token(GreenToken::new(sk(*k), s)),
    };
    memo.insert(Arc::as_ptr(t), res.clone());
    if t.count() < 64 && t.len() < 4096 {
        by_val.insert(t.clone(), res.clone());
    }
    res
}

/// Where the texts handed to a builder lie: each on its own, side by side in one string as a lexer
/// has them, or one after the other in one buffer that is overwritten.
pub struct Feed {
    mode: u8,
    buf: String,
    pos: usize,
}

impl Feed {
    pub fn of(t: &T) -> Feed {
        let (n, len) = (t.count(), t.len());
        let mode = if len > 1 << 20 { 0 } else { (n as u64 + len) % 3 };
        let buf = match mode {
            1 => t.text(),
            2 => String::with_capacity(1024),
            _ => String::new(),
        };
        Feed { mode: mode as u8, buf, pos: 0 }
    }
    fn next<'a>(&'a mut self, s: &'a str) -> &'a str {
        match self.mode {
            1 => {
                self.pos += s.len();
                &self.buf[self.pos - s.len()..self.pos]
            }
            2 => {
                self.buf.clear();
                self.buf.push_str(s);
                &self.buf
            }
            _ => s,
        }
    }
}

/// The plain sequence of builder calls.
pub fn emit(t: &T, b: &mut GreenNodeBuilder<'_>) {
    emit_from(t, b, &mut Feed::of(t))
}

fn emit_from(t: &T, b: &mut GreenNodeBuilder<'_>, feed: &mut Feed) {
    match t {
        T::N(k, kids) => {
            b.start_node(sk(*k));
            for it in kids {
                emit_from(it, b, feed);
            }
            b.finish_node();
        }
        T::K(k, s) => b.token(sk(*k), feed.next(s)),
    }
}

/// Builder calls where nodes are opened late, at a checkpoint. `here` is a checkpoint known to
/// denote the current position.
pub fn emit_cp(rng: &mut Rng, t: &T, b: &mut GreenNodeBuilder<'_>, here: Option<Checkpoint>, p: usize) {
    emit_cp_from(rng, t, b, here, p, &mut Feed::of(t))
}

fn emit_cp_from(rng: &mut Rng, t: &T, b: &mut GreenNodeBuilder<'_>, here: Option<Checkpoint>, p: usize, feed: &mut Feed) {
    match t {
        T::K(k, s) => b.token(sk(*k), feed.next(s)),
        T::N(k, kids) => {
            if rng.pct(p) {
                let cp = match here {
                    Some(it) if rng.bool() => it,
                    _ => b.checkpoint(),
                };
                let late = rng.below(kids.len() + 1);
                for (i, it) in kids[..late].iter().enumerate() {
                    emit_cp_from(rng, it, b, (i == 0).then_some(cp), p, feed);
                    if rng.pct(10) {
                        // checkpoints that are never used
                        let _ = b.checkpoint();
                    }
                }
                b.start_node_at(cp, sk(*k));
                for it in &kids[late..] {
                    emit_cp_from(rng, it, b, None, p, feed);
                }
            } else {
                b.start_node(sk(*k));
                for it in kids {
                    emit_cp_from(rng, it, b, None, p, feed);
                }
            }
            b.finish_node();
        }
    }
}

/// Starts with an empty node and inserts the children one by one, in random order.
pub fn by_edits(rng: &mut Rng, t: &T) -> GreenEl {
    match t {
        T::K(k, s) => NodeOrToken::Token(GreenToken::new(sk(*k), s)),
        T::N(k, kids) => {
            let els: Vec<GreenEl> = kids.iter().map(|it| by_edits(rng, it)).collect();
            let mut g = GreenNode::new(sk(*k), std::iter::empty::<GreenEl>().collect::<Vec<_>>());
            let mut order: Vec<usize> = (0..els.len()).collect();
            rng.shuffle(&mut order);
            let mut present: Vec<usize> = Vec::new();
            for i in order {
                let at = present.iter().filter(|it| **it < i).count();
                g = g.insert_child(at, els[i].clone());
                present.push(i);
            }
            NodeOrToken::Node(g)
        }
    }
}

/// Builds `t`, which is a node, by a random route.
pub fn build(rng: &mut Rng, t: &Arc<T>, cache: Option<&mut NodeCache>) -> (GreenNode, &'static str) {
    let mut way = rng.below(7);
    if t.kids().len() > 2000 && way == 6 {
        way = 3;
    }
    match (way, cache) {
        (0, _) | (1 | 2, None) => {
            let mut b = GreenNodeBuilder::new();
            emit(t, &mut b);
            (b.finish(), "builder")
        }
        (1, Some(cache)) => {
            let mut b = GreenNodeBuilder::with_cache(cache);
            emit(t, &mut b);
            (b.finish(), "builder+cache")
        }
        (2, Some(cache)) => {
            let mut b = GreenNodeBuilder::with_cache(cache);
            emit_cp(rng, t, &mut b, None, 50);
            (b.finish(), "checkpoints+cache")
        }
        (3, _) => (node_of(t), "children"),
        (4, _) => {
            let g = hashcons(t, &mut HashMap::new(), &mut HashMap::new());
            (g.into_node().unwrap(), "children, shared")
        }
        (5, _) => {
            let mut b = GreenNodeBuilder::new();
            let p = *rng.pick(&[20, 60, 100]);
            emit_cp(rng, t, &mut b, None, p);
            (b.finish(), "checkpoints")
        }
        _ => (by_edits(rng, t).into_node().unwrap(), "insertions"),
    }
}

/// Does the green tree spell out exactly `t`?
pub fn same_green(g: &GreenNodeData, t: &T) -> R {
    let T::N(k, kids) = t else {
        return Err("a node where a token is expected".into());
    };
    if g.kind().0 != *k {
        return Err(format!("green kind {} instead of {}", g.kind().0, k));
    }
    let mut n = 0;
    let mut len = 0u64;
    for (i, c) in g.children().enumerate() {
        let Some(want) = kids.get(i) else {
            return Err(format!("node of kind {} has more than {} children", k, kids.len()));
        };
        n += 1;
        len += u32::from(c.text_len()) as u64;
        match (c, &**want) {
            (NodeOrToken::Node(c), T::N(..)) => same_green(c, want)?,
            (NodeOrToken::Token(c), T::K(k, s)) => {
                if c.kind().0 != *k {
                    return Err(format!("green token kind {} instead of {}", c.kind().0, k));
                }
                if c.text() != &**s {
                    return Err(format!("green token text {:?} instead of {:?}", crate::util::clip(c.text(), 60), crate::util::clip(s, 60)));
                }
                if c.text_len() != TextSize::of(&**s) {
                    return Err(format!("green token text_len {:?} of {:?}", c.text_len(), crate::util::clip(s, 60)));
                }
            }
            _ => return Err(format!("child {} of {}: node and token confused", i, k)),
        }
    }
    if n != kids.len() {
        return Err(format!("node of kind {} has {} children instead of {}", k, n, kids.len()));
    }
    if u32::from(g.text_len()) as u64 != len {
        return Err(format!("text_len {:?} but the children add up to {}", g.text_len(), len));
    }
    Ok(())
}

/// Reads a green tree back.
pub fn term_of(g: &GreenNodeData) -> Arc<T> {
    Arc::new(T::N(
        g.kind().0,
        g.children()
            .map(|c| match c {
                NodeOrToken::Node(c) => term_of(c),
                NodeOrToken::Token(c) => Arc::new(T::K(c.kind().0, c.text().into())),
            })
            .collect(),
    ))
}

pub fn ptr_of(g: &GreenNodeData) -> usize {
    g as *const GreenNodeData as *const () as usize
}
