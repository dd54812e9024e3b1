//! Nodes with more children than 24 bits can count. Only where that is fast enough: the release
//! build. What to expect is told by a formula: child `i` is a node around one token "bc" if `i` is
//! one of a few marks, and the token "a" otherwise.
use rowan::{
    cursor::{SyntaxElement, SyntaxNode},
    GreenNode, GreenNodeBuilder, GreenToken, NodeOrToken, TextRange, TokenAtOffset, WalkEvent,
};

use crate::{
    build::{sk, GreenEl},
    ck, ckeq,
    nav::hash_of,
    rng::Rng,
    tree::ts,
    util::{Ctx, R},
};

struct Vast {
    n: usize,
    marks: Vec<usize>,
    a: GreenToken,
    bc: GreenNode,
}

impl Vast {
    fn new(rng: &mut Rng) -> Option<Vast> {
        if cfg!(any(miri, debug_assertions)) {
            return None;
        }
        let n = (1 << 24) + 5 + rng.below(1000);
        let mut marks = vec![1, 255, 70_000, (1 << 24) - 1, (1 << 24) + 1, n - 1, rng.below(n), rng.below(n)];
        marks.sort_unstable();
        marks.dedup();
        let bc = GreenNode::new(sk(5), vec![GreenToken::new(sk(3), "bc").into()]);
        Some(Vast { n, marks, a: GreenToken::new(sk(2), "a"), bc })
    }

    fn is_mark(&self, i: usize) -> bool {
        self.marks.binary_search(&i).is_ok()
    }

    fn kid(&self, i: usize) -> GreenEl {
        if self.is_mark(i) {
            self.bc.clone().into()
        } else {
            self.a.clone().into()
        }
    }

    fn green(&self) -> GreenNode {
        let mut kids: Vec<GreenEl> = (0..self.n).map(|_| self.a.clone().into()).collect();
        for &m in &self.marks {
            kids[m] = self.bc.clone().into();
        }
        GreenNode::new(sk(1), kids)
    }

    fn len(&self) -> u64 {
        (self.n + self.marks.len()) as u64
    }

    fn start(&self, i: usize) -> u64 {
        (i + self.marks.partition_point(|it| *it < i)) as u64
    }

    fn range(&self, i: usize) -> TextRange {
        TextRange::at(ts(self.start(i)), ts(1 + self.is_mark(i) as u64))
    }

    /// Positions worth a look.
    fn spots(&self, rng: &mut Rng) -> Vec<usize> {
        let mut res = vec![0, 65_535, 65_536, (1 << 24) - 2, 1 << 24, (1 << 24) + 1, self.n - 2, rng.below(self.n)];
        res.extend(&self.marks);
        res
    }

    fn judge(&self, cx: &mut Ctx, e: &SyntaxElement, i: usize, how: &str) -> R {
        ckeq!(cx, e.index(), i, "index of child {} of {} reached by {}", i, self.n, how);
        ckeq!(cx, e.text_range(), self.range(i), "range of child {} of {} reached by {}", i, self.n, how);
        ckeq!(cx, e.kind(), sk(if self.is_mark(i) { 5 } else { 2 }), "kind of child {} of {} reached by {}", i, self.n, how);
        let text = match e {
            NodeOrToken::Node(it) => it.to_string(),
            NodeOrToken::Token(it) => it.text().to_string(),
        };
        ckeq!(cx, text, if self.is_mark(i) { "bc" } else { "a" }, "text of child {} of {} reached by {}", i, self.n, how);
        Ok(())
    }

    fn at(&self, root: &SyntaxNode, i: usize) -> Result<SyntaxElement, String> {
        root.child_or_token_at_range(self.range(i)).ok_or_else(|| format!("no child {} of {} at {:?}", i, self.n, self.range(i)))
    }

    fn done(&self, cx: &mut Ctx, what: &str) -> R {
        cx.count("nodes with more than 2^24 children");
        cx.desc(|| format!("{} of a node with {} children", what, self.n));
        Ok(())
    }
}

fn root_of(g: GreenNode, rng: &mut Rng) -> SyntaxNode {
    if rng.pct(50) {
        SyntaxNode::new_root(g)
    } else {
        SyntaxNode::new_root_mut(g)
    }
}

pub fn green(cx: &mut Ctx, rng: &mut Rng) -> R {
    let Some(v) = Vast::new(rng) else { return Ok(()) };
    let g = v.green();
    let mut b = GreenNodeBuilder::new();
    b.start_node(sk(1));
    for i in 0..v.n {
        if v.is_mark(i) {
            b.start_node(sk(5));
            b.token(sk(3), "bc");
            b.finish_node();
        } else {
            b.token(sk(2), "a");
        }
    }
    b.finish_node();
    let h = b.finish();
    ckeq!(cx, h.children().len(), v.n, "children of a built node");
    ckeq!(cx, u32::from(h.text_len()) as u64, v.len(), "length of a built node");
    ck!(cx, g == h, "a built node of {} children differs from one made at once", v.n);
    ckeq!(cx, hash_of(&g), hash_of(&h), "hashes of equal nodes with {} children", v.n);
    for i in v.spots(rng) {
        ck!(cx, h.children().nth(i).map(|it| it.to_owned()) == Some(v.kid(i)), "child {} of {}", i, v.n);
        ck!(cx, h.children().nth_back(v.n - 1 - i).map(|it| it.to_owned()) == Some(v.kid(i)), "child {} of {} from the back", i, v.n);
    }
    drop(g);
    let i = v.spots(rng)[rng.below(10)];
    let (edited, now, how) = match rng.below(3) {
        0 => (h.insert_child(i, GreenToken::new(sk(9), "xyz").into()), v.n + 1, "insertion"),
        1 => (h.replace_child(i, GreenToken::new(sk(9), "xyz").into()), v.n, "replacement"),
        _ => (h.splice_children(i..v.n, vec![GreenToken::new(sk(9), "xyz").into()]), i + 1, "splicing"),
    };
    ckeq!(cx, edited.children().len(), now, "children after {} at {}", how, i);
    let gone = if now == v.n + 1 {
        0
    } else if now == v.n {
        1 + v.is_mark(i) as u64
    } else {
        v.len() - v.start(i)
    };
    ckeq!(cx, u32::from(edited.text_len()) as u64, v.len() + 3 - gone, "length after {} at {}", how, i);
    ckeq!(cx, edited.children().nth(i).map(|it| it.to_owned().to_string()), Some("xyz".to_string()), "what came in by {} at {}", how, i);
    if i > 0 {
        ck!(cx, edited.children().nth(i - 1).map(|it| it.to_owned()) == Some(v.kid(i - 1)), "what is in front of the {} at {}", how, i);
    }
    if now >= v.n {
        ck!(
            cx,
            edited.children().next_back().map(|it| it.to_owned())
                == (if i == v.n - 1 && now == v.n { None } else { Some(v.kid(v.n - 1)) }).or(Some(GreenToken::new(sk(9), "xyz").into())),
            "what is last after {} at {}",
            how,
            i
        );
    }
    ckeq!(cx, h.children().len(), v.n, "children of the original");
    v.done(cx, "building and editing")
}

pub fn steps(cx: &mut Ctx, rng: &mut Rng) -> R {
    let Some(v) = Vast::new(rng) else { return Ok(()) };
    let root = root_of(v.green(), rng);
    let last = root.last_child_or_token().unwrap();
    v.judge(cx, &last, v.n - 1, "last_child_or_token")?;
    v.judge(cx, &root.last_child().unwrap().into(), v.n - 1, "last_child")?;
    let mut seen = Vec::new();
    for i in v.spots(rng) {
        let e = v.at(&root, i)?;
        v.judge(cx, &e, i, "child_or_token_at_range")?;
        ck!(cx, e.parent().as_ref() == Some(&root), "parent of child {} of {}", i, v.n);
        let next = e.next_sibling_or_token();
        ckeq!(cx, next.is_some(), i + 1 < v.n, "whether child {} of {} has a next sibling", i, v.n);
        if let Some(next) = next {
            v.judge(cx, &next, i + 1, "next_sibling_or_token")?;
            ck!(cx, next.prev_sibling_or_token().as_ref() == Some(&e), "there and back again from child {} of {}", i, v.n);
            ck!(cx, next != e, "child {} of {} equals the next", i, v.n);
        }
        let prev = e.prev_sibling_or_token();
        ckeq!(cx, prev.is_some(), i > 0, "whether child {} of {} has a previous sibling", i, v.n);
        if let Some(prev) = prev {
            v.judge(cx, &prev, i - 1, "prev_sibling_or_token")?;
        }
        if let NodeOrToken::Node(it) = &e {
            let want = v.marks.iter().find(|it| **it > i);
            ckeq!(cx, it.next_sibling().map(|it| it.index()), want.copied(), "next sibling of node {} of {}", i, v.n);
            ckeq!(cx, it.next_sibling_by_kind(&|k| k == sk(5)).map(|it| it.index()), want.copied(), "next sibling by kind of node {} of {}", i, v.n);
            let want = v.marks.iter().rev().find(|it| **it < i);
            ckeq!(cx, it.prev_sibling().map(|it| it.index()), want.copied(), "previous sibling of node {} of {}", i, v.n);
            let t = it.first_token().unwrap();
            ckeq!(cx, (t.index(), t.text_range()), (0, v.range(i)), "token below node {} of {}", i, v.n);
            ckeq!(cx, t.next_token().map(|it| it.text_range().start()), (i + 1 < v.n).then(|| ts(v.start(i + 1))), "token after node {} of {}", i, v.n);
            ckeq!(cx, t.prev_token().map(|it| it.text_range().end()), Some(ts(v.start(i))), "token before node {} of {}", i, v.n);
        }
        seen.push((i, hash_of(&e), e));
    }
    for (i, h, e) in &seen {
        for (j, k, f) in &seen {
            ckeq!(cx, e == f, i == j, "equality of children {} and {} of {}", i, j, v.n);
            ck!(cx, i != j || h == k, "hashes of handles of child {}", i);
        }
    }
    let far = root.first_child_or_token_by_kind(&|_| true).unwrap();
    v.judge(cx, &far, 0, "first_child_or_token_by_kind")?;
    let at = std::cell::Cell::new(0usize);
    let want = 1 << 24;
    let e = root.first_child_or_token_by_kind(&|_| at.replace(at.get() + 1) == want).unwrap();
    v.judge(cx, &e, want, "first_child_or_token_by_kind")?;
    v.done(cx, "steps")
}

pub fn walks(cx: &mut Ctx, rng: &mut Rng) -> R {
    let Some(v) = Vast::new(rng) else { return Ok(()) };
    let root = SyntaxNode::new_root(v.green());
    let mut n = 0;
    for e in root.children_with_tokens() {
        if n % 65_521 == 0 || v.is_mark(n) || n + 2000 > v.n {
            v.judge(cx, &e, n, "children_with_tokens")?;
        }
        n += 1;
    }
    ckeq!(cx, n, v.n, "children from children_with_tokens");
    ckeq!(cx, root.children().map(|it| it.index()).collect::<Vec<_>>(), v.marks, "children that are nodes");
    ckeq!(cx, root.children().by_kind(|k| k == sk(5)).count(), v.marks.len(), "children that are nodes, by kind");
    ckeq!(cx, root.children_with_tokens().by_kind(|k| k == sk(2)).count(), v.n - v.marks.len(), "children that are tokens, by kind");
    let (mut enter, mut leave, mut deep) = (0, 0, 0i64);
    for e in root.preorder_with_tokens() {
        match e {
            WalkEvent::Enter(_) => {
                enter += 1;
                deep += 1;
            }
            WalkEvent::Leave(_) => {
                leave += 1;
                deep -= 1;
            }
        }
        ck!(cx, (0..=3).contains(&deep), "depth {} in a walk", deep);
    }
    let all = 1 + v.n + v.marks.len();
    ckeq!(cx, (enter, leave), (all, all), "elements entered and left by a walk");
    ckeq!(cx, root.descendants().count(), 1 + v.marks.len(), "nodes below");
    v.done(cx, "walks")
}

pub fn lookups(cx: &mut Ctx, rng: &mut Rng) -> R {
    let Some(v) = Vast::new(rng) else { return Ok(()) };
    let root = root_of(v.green(), rng);
    for i in v.spots(rng) {
        let e = v.at(&root, i)?;
        v.judge(cx, &e, i, "child_or_token_at_range")?;
        let e = root.covering_element(v.range(i));
        ckeq!(cx, e.text_range(), v.range(i), "range of what covers child {} of {}", i, v.n);
        ckeq!(cx, e.kind(), sk(if v.is_mark(i) { 3 } else { 2 }), "kind of what covers child {} of {}", i, v.n);
        if i > 0 {
            let wide = TextRange::new(v.range(i - 1).start(), v.range(i).end());
            ck!(cx, root.covering_element(wide) == root.clone().into(), "two children are covered by something else than their parent");
        }
    }
    if !root.is_mutable() {
        let i = v.spots(rng)[rng.below(8)].max(1);
        match root.token_at_offset(ts(v.start(i))) {
            TokenAtOffset::Between(l, r) => {
                ckeq!(cx, (l.text_range(), r.text_range()), (v.range(i - 1), v.range(i)), "tokens at the start of child {} of {}", i, v.n)
            }
            it => return Err(format!("{:?} at the start of child {} of {}", it, i, v.n)),
        }
    }
    let t = root.text();
    ckeq!(cx, u32::from(t.len()) as u64, v.len(), "length of the text");
    let at = t.find_char('b').map(|it| u32::from(it) as u64);
    ckeq!(cx, at, Some(v.start(v.marks[0])), "where the first b is");
    let m = v.marks[v.marks.len() - 1];
    let s = t.slice(ts(v.start((1 << 24) - 3))..);
    let mut want = String::new();
    for i in (1 << 24) - 3..v.n {
        want.push_str(if v.is_mark(i) { "bc" } else { "a" });
    }
    ck!(cx, s == want.as_str() && s.to_string() == want, "the end of the text of {} children", v.n);
    ckeq!(cx, t.char_at(ts(v.start(m) + 1)), Some('c'), "a character near the end of the text of {} children", v.n);
    v.done(cx, "lookups")
}

pub fn edits(cx: &mut Ctx, rng: &mut Rng) -> R {
    let Some(v) = Vast::new(rng) else { return Ok(()) };
    let g = v.green();
    let root = SyntaxNode::new_root_mut(g.clone());
    let held: Vec<(usize, SyntaxElement)> = {
        let mut all = v.spots(rng);
        all.sort_unstable();
        all.dedup();
        all.into_iter().map(|i| v.at(&root, i).map(|it| (i, it))).collect::<Result<_, _>>()?
    };
    // one goes away, one comes in
    let (gone, _) = held[rng.below(held.len())];
    held.iter().find(|it| it.0 == gone).unwrap().1.detach();
    let at = [0, 1 << 16, 1 << 24, v.n - 1][rng.below(4)];
    let new = SyntaxNode::new_root_mut(GreenNode::new(sk(9), vec![GreenToken::new(sk(8), "new").into()]));
    root.splice_children(at..at, vec![new.clone().into()]);
    let index = |i: usize| {
        let i = i - (i > gone) as usize;
        i + (i >= at) as usize
    };
    ckeq!(cx, new.index(), at, "index of what came in");
    let before = if at >= gone { v.start(at + 1) - 1 - v.is_mark(gone) as u64 } else { v.start(at) };
    ckeq!(cx, new.text_range(), TextRange::at(ts(before), ts(3)), "range of what came in");
    for (i, e) in &held {
        if *i == gone {
            ckeq!(cx, (e.parent(), e.text_range().start()), (None, ts(0)), "what was detached from {}", i);
            continue;
        }
        ckeq!(cx, e.index(), index(*i), "index of child {} of {} after edits at {} and {}", i, v.n, gone, at);
        let mut start = v.start(*i);
        start -= if *i > gone { 1 + v.is_mark(gone) as u64 } else { 0 };
        start += if index(*i) > at { 3 } else { 0 };
        ckeq!(cx, e.text_range().start(), ts(start), "start of child {} of {} after edits at {} and {}", i, v.n, gone, at);
        ck!(cx, e.parent().as_ref() == Some(&root), "parent of child {} of {} after edits", i, v.n);
    }
    let now = root.green();
    ckeq!(cx, now.children().len(), v.n, "children after edits");
    ckeq!(cx, now.children().nth(at).map(|it| it.to_owned().to_string()), Some("new".to_string()), "what came in");
    let part = g.remove_child(gone).insert_child(at, new.green().into_owned().into());
    ck!(cx, *now == *part, "the edited tree of {} children (out: {}, in: {})", v.n, gone, at);
    ckeq!(cx, g.children().len(), v.n, "children of the tree that the edited one was made of");
    v.done(cx, "edits")
}
