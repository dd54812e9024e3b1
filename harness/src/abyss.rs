//! Paths deeper than sixteen bits can count. Everything is one long path with a few tokens to the
//! left and right, so what to expect can be told without a general model.
use rowan::{
    ast::SyntaxNodePtr,
    cursor::{SyntaxElement, SyntaxNode, SyntaxToken},
    GreenNode, GreenNodeBuilder, GreenToken, NodeOrToken, TextRange, WalkEvent,
};

use crate::{
    build::{sk, GreenEl},
    ck, ckeq,
    nav::hash_of,
    rng::Rng,
    term::T,
    text::Raw,
    tree::{el, fresh_mut, ts},
    util::{catch, Ctx, R},
};

/// So many empty tokens come first in every inner node where the builder is concerned: the cache
/// leaves nodes with more than three children alone (a growing cache takes time quadratic in the
/// depth of what is in it).
const FAT: usize = 3;

/// A path of `d` nodes; the one at depth `i` has a token before and after its child if `pre[i]`
/// and `post[i]` say so; the innermost has one token. Texts are one byte long.
struct Path {
    d: usize,
    pre: Vec<bool>,
    post: Vec<bool>,
    /// Where the node at each depth starts and ends.
    start: Vec<u64>,
    end: Vec<u64>,
}

fn kind(i: usize) -> u16 {
    (i % 65_521) as u16
}

impl Path {
    fn new(cx: &mut Ctx, rng: &mut Rng) -> Path {
        let d = if cx.tiny { 9 + rng.below(6) } else { 65_537 + rng.below(2000) };
        cx.sig(d as u64 + 99);
        cx.count("paths deeper than 65536");
        cx.desc(|| format!("a path of {} nodes", d));
        let (p, q) = (*rng.pick(&[0, 0, 1, 30]), *rng.pick(&[0, 0, 1, 30]));
        let mut pre: Vec<bool> = (0..d - 1).map(|_| rng.pct(p)).collect();
        let mut post: Vec<bool> = (0..d - 1).map(|_| rng.pct(q)).collect();
        pre[0] = true;
        post[0] = true;
        let mut path = Path { d, pre, post, start: vec![], end: vec![] };
        path.measure();
        path
    }
    fn measure(&mut self) {
        let mut at = 0;
        self.start = vec![0; self.d];
        for i in 1..self.d {
            at += self.pre[i - 1] as u64;
            self.start[i] = at;
        }
        let mut to = at + 1;
        self.end = vec![to; self.d];
        for i in (0..self.d - 1).rev() {
            to += self.post[i] as u64;
            self.end[i] = to;
        }
    }
    fn text(&self) -> String {
        let n = |v: &[bool]| v.iter().filter(|it| **it).count();
        format!("{}x{}", "<".repeat(n(&self.pre)), ">".repeat(n(&self.post)))
    }
    fn green(&self, leaf: &str) -> GreenNode {
        self.fat_green(leaf, 0)
    }
    fn fat_green(&self, leaf: &str, fat: usize) -> GreenNode {
        let empty: GreenEl = GreenToken::new(sk(4), "").into();
        let pre: GreenEl = GreenToken::new(sk(1), "<").into();
        let post: GreenEl = GreenToken::new(sk(2), ">").into();
        let mut g = GreenNode::new(sk(kind(self.d - 1)), [GreenToken::new(sk(3), leaf).into()]);
        for i in (0..self.d - 1).rev() {
            let mut kids = vec![empty.clone(); fat];
            kids.extend(self.pre[i].then(|| pre.clone()));
            kids.push(g.into());
            kids.extend(self.post[i].then(|| post.clone()));
            g = GreenNode::new(sk(kind(i)), kids);
        }
        g
    }
    fn range(&self, i: usize) -> TextRange {
        TextRange::new(ts(self.start[i]), ts(self.end[i]))
    }
    fn depths(&self, rng: &mut Rng, more: usize) -> Vec<usize> {
        let mut v: Vec<usize> = [0, 1, 255, 256, 257, 32_768, 65_534, 65_535, 65_536].into_iter().filter(|it| *it < self.d).collect();
        v.extend([self.d - 1, self.d - 2]);
        v.extend((0..more).map(|_| rng.below(self.d)));
        v.sort_unstable();
        v.dedup();
        v
    }
    /// The handles of the path, outermost first.
    fn handles(&self, root: &SyntaxNode) -> R<Vec<SyntaxNode>> {
        let mut v = vec![root.clone()];
        while let Some(n) = v[v.len() - 1].first_child() {
            v.push(n);
        }
        match v.len() == self.d {
            true => Ok(v),
            false => Err(format!("a path of {} nodes has {} by first children", self.d, v.len())),
        }
    }
}

/// A step in a mutable tree takes time in proportion to the depth, so there is no walking in them
/// at full size.
fn roots(cx: &Ctx, p: &Path) -> Vec<(&'static str, SyntaxNode)> {
    let g = p.green("x");
    let mut v = vec![("immutable", SyntaxNode::new_root(g.clone()))];
    if cx.tiny {
        v.push(("mutable", SyntaxNode::new_root_mut(g)));
    }
    v
}

/// Goes down without recursion.
fn same(cx: &mut Ctx, g: &GreenNode, p: &Path, fat: usize, how: &str) -> R {
    let mut n: &rowan::GreenNodeData = g;
    for i in 0..p.d {
        ckeq!(cx, n.kind().0, kind(i), "kind at depth {}, {}", i, how);
        ckeq!(cx, u32::from(n.text_len()) as u64, p.end[i] - p.start[i], "text length at depth {}, {}", i, how);
        if i + 1 == p.d {
            let c: Vec<_> = n.children().collect();
            ck!(cx, c.len() == 1 && c[0].as_token().map(|it| it.text()) == Some("x"), "the innermost node, {}", how);
            break;
        }
        let (a, b) = (fat + p.pre[i] as usize, p.post[i] as usize);
        ckeq!(cx, n.children().len(), a + 1 + b, "number of children at depth {}, {}", i, how);
        n = n.children().nth(a).and_then(|it| it.into_node()).ok_or_else(|| format!("no node at depth {}, {}", i, how))?;
    }
    Ok(())
}

/// C01, C03
pub fn green(cx: &mut Ctx, rng: &mut Rng) -> R {
    let p = Path::new(cx, rng);
    let direct = p.fat_green("x", FAT);
    same(cx, &direct, &p, FAT, "built from the children")?;
    let empties = |b: &mut GreenNodeBuilder, i: usize| (0..if i + 1 < p.d { FAT } else { 0 }).for_each(|_| b.token(sk(4), ""));
    let mut b = GreenNodeBuilder::new();
    for i in 0..p.d {
        b.start_node(sk(kind(i)));
        empties(&mut b, i);
        if i + 1 < p.d && p.pre[i] {
            b.token(sk(1), "<");
        }
    }
    b.token(sk(3), "x");
    for i in (0..p.d).rev() {
        if i + 1 < p.d && p.post[i] {
            b.token(sk(2), ">");
        }
        b.finish_node();
    }
    let built = b.finish();
    same(cx, &built, &p, FAT, "built in order")?;
    // from the inside, through one checkpoint per token
    let mut b = GreenNodeBuilder::new();
    let mut cps = vec![];
    for i in 0..p.d {
        cps.push(b.checkpoint());
        empties(&mut b, i);
        if i + 1 < p.d && p.pre[i] {
            b.token(sk(1), "<");
        }
    }
    b.token(sk(3), "x");
    for i in (0..p.d).rev() {
        b.start_node_at(cps[i], sk(kind(i)));
        if i + 1 < p.d && p.post[i] {
            b.token(sk(2), ">");
        }
        b.finish_node();
    }
    let wrapped = b.finish();
    same(cx, &wrapped, &p, FAT, "built with checkpoints")?;
    for (how, g) in [("in order", &built), ("with checkpoints", &wrapped)] {
        ck!(cx, *g == direct && direct == *g, "a deep tree built {} differs", how);
        ck!(cx, hash_of(g) == hash_of(&direct), "a deep tree built {} hashes differently", how);
    }
    let other = p.fat_green("y", FAT);
    ck!(cx, other != direct && direct != other, "deep trees that differ at the bottom are equal");
    ckeq!(cx, direct.to_string(), p.text(), "display form of a deep green tree");
    Ok(())
}

/// C04
pub fn c04(cx: &mut Ctx, rng: &mut Rng) -> R {
    let p = Path::new(cx, rng);
    for (how, root) in roots(cx, &p) {
        let hs = p.handles(&root)?;
        let leaf = hs[p.d - 1].first_token().ok_or("no token")?;
        let new = leaf.replace_with(GreenToken::new(leaf.kind(), "y"));
        ck!(cx, new == p.green("y"), "replacing the innermost token of a deep {} tree", how);
        for d in p.depths(rng, 2) {
            let g = hs[d].replace_with(GreenNode::new(sk(kind(d)), []));
            let want = p.end[0] - (p.end[d] - p.start[d]);
            ckeq!(cx, u32::from(g.text_len()) as u64, want, "length after replacing the node at depth {} of a deep {} tree", d, how);
        }
        same(cx, &root.green().into_owned(), &p, 0, "after replacing")?;
    }
    Ok(())
}

/// C05, C06, C11
pub fn steps(cx: &mut Ctx, rng: &mut Rng) -> R {
    let p = Path::new(cx, rng);
    for (how, root) in roots(cx, &p) {
        let hs = p.handles(&root)?;
        let up: Vec<SyntaxNode> = hs[p.d - 1].ancestors().collect();
        ckeq!(cx, up.len(), p.d, "number of ancestors in a deep {} tree", how);
        ck!(cx, up.iter().rev().eq(hs.iter()), "ancestors in a deep {} tree", how);
        // offsets of mutable trees take time in proportion to the depth
        let sel = if how == "mutable" { p.depths(rng, 12) } else { (0..p.d).collect() };
        for i in sel {
            ckeq!(cx, hs[i].text_range(), p.range(i), "range at depth {} of a deep {} tree", i, how);
            let want = if i == 0 { 0 } else { p.pre[i - 1] as usize };
            ckeq!(cx, hs[i].index(), want, "index at depth {} of a deep {} tree", i, how);
            ckeq!(cx, hs[i].kind().0, kind(i), "kind at depth {} of a deep {} tree", i, how);
            ck!(cx, i == 0 || hs[i].parent().as_ref() == Some(&hs[i - 1]), "parent at depth {} of a deep {} tree", i, how);
        }
        // tokens, in both directions
        let text = p.text();
        for fwd in [true, false] {
            let step = |t: &SyntaxToken| if fwd { t.next_token() } else { t.prev_token() };
            let mut t = if fwd { root.first_token() } else { root.last_token() };
            let mut got = String::new();
            let mut n = 0u64;
            while let Some(it) = t {
                got.push_str(it.text());
                if how == "immutable" {
                    let at = if fwd { n } else { p.end[0] - 1 - n };
                    ckeq!(cx, it.text_range(), TextRange::new(ts(at), ts(at + 1)), "range of a token of a deep tree");
                }
                n += 1;
                if n > p.end[0] {
                    return Err("tokens without end".into());
                }
                t = step(&it);
            }
            let want: String = if fwd { text.clone() } else { text.chars().rev().collect() };
            ck!(cx, got == want, "tokens of a deep {} tree, {}", how, if fwd { "forward" } else { "backward" });
        }
        let leaf = hs[p.d - 1].first_token().ok_or("no token")?;
        ck!(cx, leaf.text() == "x" && leaf.parent().as_ref() == Some(&hs[p.d - 1]), "the innermost token of a deep {} tree", how);
        ckeq!(cx, leaf.ancestors().count(), p.d, "ancestors of the innermost token of a deep {} tree", how);
        for i in p.depths(rng, 3) {
            let first = hs[i].first_token().ok_or("no token")?;
            ckeq!(cx, u32::from(first.text_range().start()) as u64, p.start[i], "first token below depth {} of a deep {} tree", i, how);
            let last = hs[i].last_token().ok_or("no token")?;
            ckeq!(cx, u32::from(last.text_range().end()) as u64, p.end[i], "last token below depth {} of a deep {} tree", i, how);
        }
        // the same again by other routes
        for i in p.depths(rng, 3) {
            let a = leaf.ancestors().nth(p.d - 1 - i).ok_or("no ancestor")?;
            ck!(cx, a == hs[i] && hash_of(&a) == hash_of(&hs[i]), "two handles at depth {} of a deep {} tree", i, how);
            let b = root.descendants().nth(i).ok_or("no descendant")?;
            ck!(cx, b == hs[i] && hash_of(&b) == hash_of(&hs[i]), "two handles at depth {} of a deep {} tree", i, how);
            ck!(cx, i == 0 || (a != hs[0] && hs[0] != b) || p.range(i) == p.range(0), "handles at depths 0 and {} of a deep {} tree are equal", i, how);
        }
    }
    Ok(())
}

/// C08
pub fn walks(cx: &mut Ctx, rng: &mut Rng) -> R {
    let p = Path::new(cx, rng);
    for (how, root) in roots(cx, &p) {
        let hs = p.handles(&root)?;
        for from in [0, 1, rng.below(p.d), p.d.saturating_sub(65_537), p.d.saturating_sub(65_536)] {
            let mut want: Vec<(bool, usize)> = (from..p.d).map(|it| (true, it)).collect();
            want.extend((from..p.d).rev().map(|it| (false, it)));
            let mut n = 0;
            for e in hs[from].preorder() {
                let (enter, node) = match &e {
                    WalkEvent::Enter(it) => (true, it),
                    WalkEvent::Leave(it) => (false, it),
                };
                let w = want.get(n).ok_or_else(|| format!("a walk from depth {} of a deep {} tree goes on", from, how))?;
                ck!(cx, enter == w.0 && node.kind().0 == kind(w.1), "event {} of a walk from depth {} of a deep {} tree", n, from, how);
                n += 1;
            }
            ckeq!(cx, n, want.len(), "number of events of a walk from depth {} of a deep {} tree", from, how);
            ckeq!(cx, hs[from].descendants().count(), p.d - from, "number of descendants at depth {} of a deep {} tree", from, how);
            let tokens = (p.end[from] - p.start[from]) as usize;
            let mut text = String::new();
            let mut depth = 0i64;
            let mut nodes = 0;
            for e in hs[from].preorder_with_tokens() {
                match e {
                    WalkEvent::Enter(NodeOrToken::Token(it)) => {
                        text.push_str(it.text());
                        depth += 1;
                    }
                    WalkEvent::Enter(_) => {
                        nodes += 1;
                        depth += 1;
                    }
                    WalkEvent::Leave(_) => depth -= 1,
                }
            }
            ckeq!(cx, (depth, nodes), (0, p.d - from), "a walk with tokens from depth {} of a deep {} tree", from, how);
            let all = p.text();
            let want = &all[p.start[from] as usize..p.end[from] as usize];
            ck!(cx, text == want, "tokens of a walk from depth {} of a deep {} tree", from, how);
            ckeq!(cx, hs[from].descendants_with_tokens().count(), p.d - from + tokens, "number of elements below depth {} of a deep {} tree", from, how);
            // skipping
            let at = rng.range(from, p.d - 1);
            let mut walk = hs[from].preorder();
            let mut n = 0;
            let mut i = from;
            while let Some(e) = walk.next() {
                if let WalkEvent::Enter(_) = e {
                    if i == at {
                        walk.skip_subtree();
                    }
                    i += 1;
                }
                n += 1;
            }
            ckeq!(cx, (i, n), (at + 1, 2 * (at + 1 - from)), "a walk from depth {} of a deep {} tree that skips at {}", from, how, at);
        }
        if cx.tiny {
            break;
        }
    }
    Ok(())
}

/// C09, C10, C20, C22
pub fn lookups(cx: &mut Ctx, rng: &mut Rng) -> R {
    let p = Path::new(cx, rng);
    let text = p.text();
    for (how, root) in roots(cx, &p) {
        let hs = p.handles(&root)?;
        let x = p.start[p.d - 1];
        let leaf = hs[p.d - 1].first_token().ok_or("no token")?;
        let found: Vec<SyntaxToken> = root.token_at_offset(ts(x)).collect();
        ck!(cx, found.last() == Some(&leaf), "the innermost token of a deep {} tree, by its start", how);
        let found: Vec<SyntaxToken> = root.token_at_offset(ts(x + 1)).collect();
        ck!(cx, found.first() == Some(&leaf), "the innermost token of a deep {} tree, by its end", how);
        ck!(cx, root.covering_element(leaf.text_range()) == SyntaxElement::Token(leaf.clone()), "what covers the innermost token of a deep {} tree", how);
        for i in p.depths(rng, 2) {
            let c = root.covering_element(p.range(i));
            ckeq!(cx, c.text_range(), p.range(i), "what covers the node at depth {} of a deep {} tree", i, how);
            let v = hs[i].text();
            let want = &text[p.start[i] as usize..p.end[i] as usize];
            ck!(cx, v == *want && v.to_string() == want && v.len() == ts(want.len() as u64), "text at depth {} of a deep {} tree", i, how);
            ckeq!(cx, v.find_char('x').map(u32::from), want.find('x').map(|it| it as u32), "find_char at depth {} of a deep {} tree", i, how);
            ck!(cx, hs[i].to_string() == want, "display form at depth {} of a deep {} tree", i, how);
        }
        if how == "immutable" {
            for i in p.depths(rng, 2) {
                let n: rowan::api::SyntaxNode<Raw> = hs[i].clone().into();
                let r: rowan::api::SyntaxNode<Raw> = root.clone().into();
                let ptr = SyntaxNodePtr::new(&n);
                ckeq!(cx, ptr.text_range(), p.range(i), "range of a pointer to depth {}", i);
                let back = ptr.try_to_node(&r).ok_or_else(|| format!("a pointer to depth {} does not resolve", i))?;
                ckeq!(cx, (back.kind(), back.text_range()), (n.kind(), p.range(i)), "the node found for a pointer to depth {}", i);
                let twin = (0..p.d).any(|j| j != i && kind(j) == kind(i) && p.range(j) == p.range(i));
                ck!(cx, twin || back == n, "another node found for a pointer to depth {}", i);
            }
        }
    }
    Ok(())
}

/// C12, C13, C14
pub fn edits(cx: &mut Ctx, rng: &mut Rng) -> R {
    let p = Path::new(cx, rng);
    let origin = SyntaxNode::new_root(p.green("x"));
    let hs = p.handles(&origin)?;
    let bottom = hs[p.d - 1].clone_for_update();
    let mut up: Vec<SyntaxNode> = bottom.ancestors().collect();
    up.reverse();
    ckeq!(cx, up.len(), p.d, "depth of a mutable clone");
    let root = up[0].clone();
    let snapshot = root.green().into_owned();
    ckeq!(cx, bottom.text_range(), p.range(p.d - 1), "range of a mutable clone");
    ck!(cx, snapshot == p.green("x"), "a mutable clone starts out different");
    // at the bottom
    bottom.splice_children(1..1, vec![fresh_mut(&T::K(7, "yz".into()))]);
    let text = p.text().replace('x', "xyz");
    ck!(cx, root.green().to_string() == text, "text after an insertion at the bottom");
    for i in p.depths(rng, 3) {
        ckeq!(cx, up[i].text_range(), TextRange::new(ts(p.start[i]), ts(p.end[i] + 2)), "range at depth {} after an insertion at the bottom", i);
        ckeq!(cx, up[i].green().text_len(), ts(p.end[i] + 2 - p.start[i]), "green length at depth {} after an insertion at the bottom", i);
    }
    bottom.first_token().ok_or("no token")?.detach();
    ck!(cx, root.green().to_string() == p.text().replace('x', "yz"), "text after a removal at the bottom");
    // at the top: everything below moves
    up[0].first_token().ok_or("no token")?.detach();
    for i in p.depths(rng, 3).into_iter().skip(1) {
        ckeq!(cx, up[i].text_range(), TextRange::new(ts(p.start[i] - 1), ts(p.end[i])), "range at depth {} after a removal at the top", i);
    }
    // in half and together again, the other way round
    let ds = p.depths(rng, 3);
    let d = *rng.pick(&ds[1..]);
    let pieces = (up[d].green().to_string(), bottom.text_range());
    up[d].detach();
    ck!(cx, up[d].parent().is_none() && up[d].green().to_string() == pieces.0, "a part detached at depth {}", d);
    ckeq!(cx, bottom.text_range().start(), pieces.1.start() - ts(p.start[d] - 1), "range of the innermost node after a part was detached at depth {}", d);
    ckeq!(cx, bottom.ancestors().count(), p.d - d, "depth of the innermost node after a part was detached at depth {}", d);
    ck!(cx, bottom.ancestors().last().as_ref() == Some(&up[d]), "root of the innermost node after a part was detached at depth {}", d);
    ckeq!(cx, up[d - 1].ancestors().count(), d, "depth above the detached part");
    let rest = root.green().to_string();
    bottom.splice_children(0..0, vec![el(&root)]);
    ckeq!(cx, up[d - 1].ancestors().count(), p.d, "depth after the upper part was put below the lower");
    let whole = up[d].green().to_string();
    ck!(cx, whole == pieces.0.replace("yz", &format!("{}yz", rest)), "text after the upper part was put below the lower");
    ck!(cx, up[d - 1].ancestors().last().as_ref() == Some(&up[d]), "root after the upper part was put below the lower");
    let r = catch(|| up[d - 1].splice_children(0..0, vec![el(&up[d])]));
    ck!(cx, r.is_err(), "the outermost node can be put below the innermost");
    ck!(cx, up[d].green().to_string() == whole && up[d].parent().is_none(), "a refused insertion has changed a deep tree");
    // nothing of this shows elsewhere
    same(cx, &snapshot, &p, 0, "a green tree taken before the edits")?;
    same(cx, &origin.green().into_owned(), &p, 0, "the origin of a mutable clone")?;
    ck!(cx, origin.text() == *p.text().as_str(), "text of the origin of a mutable clone");
    Ok(())
}
