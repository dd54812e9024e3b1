//! Memory: nothing invalid is touched (C16), everything is released (C17).
//!
//! The oracle of C16 is outside: the checking allocator, AddressSanitizer, Miri, the process
//! not crashing. The oracle of C17 is the count of live allocations and bytes.
use std::{
    cell::{Cell, RefCell},
    rc::Rc,
    sync::Arc,
};

use rowan::{
    ast::SyntaxNodePtr,
    cursor::{Preorder, PreorderWithTokens, SyntaxElement, SyntaxElementChildren, SyntaxNode, SyntaxNodeChildren, SyntaxToken},
    Direction, GreenNode, GreenNodeBuilder, GreenToken, NodeCache, NodeOrToken, SyntaxKind, SyntaxText, TextRange, TextSize,
};

use crate::{
    build::{build, node_of, sk, GreenEl},
    ck, ckeq,
    rng::Rng,
    runner::{Case, Special},
    term::{big_text, rand_shape, rand_term, tiny_term, wide, T},
    text::Odd,
    tree::{make_tree, Pick},
    util::{catch, Ctx, R},
    world::Focus,
};

type SN = rowan::SyntaxNode<Odd>;

/// Something a program may hold on to.
enum Item {
    El(SyntaxElement),
    Kids(SyntaxNodeChildren),
    Els(SyntaxElementChildren),
    Pre(Preorder),
    PreT(PreorderWithTokens),
    Text(SyntaxText),
    Green(GreenEl),
    Builder(GreenNodeBuilder<'static>, usize),
    Cache(Box<NodeCache>),
    Ptr(SyntaxNodePtr<Odd>),
    Typed(SN),
}

struct Chaos {
    pool: RefCell<Vec<Item>>,
    rng: RefCell<Rng>,
    depth: Cell<u32>,
    max: usize,
    stats: RefCell<[u64; 48]>,
    refused: Cell<u64>,
    nested: Cell<u64>,
    sig: Cell<u64>,
}

const OPS: [&str; 48] = [
    "parent",
    "ancestors",
    "children",
    "children_with_tokens",
    "first",
    "last",
    "next_sibling",
    "prev_sibling",
    "next_sibling_or_token",
    "prev_sibling_or_token",
    "to_next_sibling",
    "by_kind",
    "first_token",
    "last_token",
    "siblings",
    "siblings_with_tokens",
    "descendants",
    "descendants_with_tokens",
    "preorder",
    "preorder_with_tokens",
    "token_at_offset",
    "covering_element",
    "child_or_token_at_range",
    "detach",
    "splice",
    "replace_with",
    "clone_for_update",
    "clone_subtree",
    "text",
    "green",
    "print",
    "compare",
    "next_token",
    "prev_token",
    "drop",
    "clone",
    "new tree",
    "advance",
    "text ops",
    "green ops",
    "builder ops",
    "borrowed text",
    "find by kind",
    "typed",
    "pointer",
    "range",
    "splice with an editing iterator",
    "cache",
];

impl Chaos {
    fn below(&self, n: usize) -> usize {
        self.rng.borrow_mut().below(n)
    }
    fn pct(&self, p: usize) -> bool {
        self.rng.borrow_mut().pct(p)
    }
    fn fork(&self) -> Rng {
        self.rng.borrow_mut().fork()
    }
    fn hit(&self, i: usize) {
        self.stats.borrow_mut()[i] += 1;
        self.sig.set(crate::rng::mix(self.sig.get() ^ i as u64));
    }
    fn put(&self, it: Item) {
        let old = {
            let mut p = self.pool.borrow_mut();
            if p.len() < self.max {
                p.push(it);
                None
            } else {
                let i = self.below(p.len());
                Some(std::mem::replace(&mut p[i], it))
            }
        };
        drop(old);
    }
    fn el(&self, e: Option<impl Into<SyntaxElement>>) {
        if let Some(e) = e {
            self.put(Item::El(e.into()));
        }
    }
    /// An iterator that goes on while other things happen, and may be abandoned.
    fn lazily<E: Into<SyntaxElement>>(&self, mut it: impl Iterator<Item = E>) {
        for _ in 0..self.below(10) {
            let Some(e) = it.next() else { break };
            self.put(Item::El(e.into()));
            self.nested();
        }
    }
    fn any_el(&self) -> Option<SyntaxElement> {
        let p = self.pool.borrow();
        for _ in 0..8 {
            if p.is_empty() {
                return None;
            }
            if let Item::El(e) = &p[self.below(p.len())] {
                return Some(e.clone());
            }
        }
        None
    }
    fn any_node(&self) -> Option<SyntaxNode> {
        (0..6).find_map(|_| self.any_el()?.into_node())
    }
    fn take(&self, pick: impl Fn(&Item) -> bool) -> Option<Item> {
        let mut p = self.pool.borrow_mut();
        let n = p.len();
        if n == 0 {
            return None;
        }
        let at = self.below(n);
        let i = (0..n).map(|i| (at + i) % n).find(|i| pick(&p[*i]))?;
        Some(p.swap_remove(i))
    }
    fn any_green(&self) -> GreenEl {
        let g = {
            let p = self.pool.borrow();
            (0..4).find_map(|_| match p.get(self.below(p.len().max(1))) {
                Some(Item::Green(g)) => Some(g.clone()),
                Some(Item::El(NodeOrToken::Node(n))) => Some(n.green().into_owned().into()),
                Some(Item::El(NodeOrToken::Token(n))) => Some(n.green().to_owned().into()),
                _ => None,
            })
        };
        match g {
            Some(g) if u32::from(len_of(&g)) < 100_000 => g,
            _ => GreenToken::new(sk(self.below(6) as u16), ["", "x", "yz", "é"][self.below(4)]).into(),
        }
    }

    /// Runs some operations from inside of a callback.
    fn nested(&self) {
        if self.depth.get() < 2 && self.pct(40) {
            self.depth.set(self.depth.get() + 1);
            for _ in 0..1 + self.below(2) {
                self.nested.set(self.nested.get() + 1);
                self.op();
            }
            self.depth.set(self.depth.get() - 1);
        }
        if self.pct(4) {
            panic!("callback");
        }
    }

    fn matcher(&self) -> impl Fn(SyntaxKind) -> bool + '_ {
        let bits = self.fork().u64();
        move |k: SyntaxKind| {
            self.nested();
            bits >> (k.0 % 64) & 1 == 1
        }
    }

    /// One operation; a panic is a refusal.
    fn op(&self) {
        let d = self.depth.get();
        if catch(|| self.op_inner()).is_err() {
            self.refused.set(self.refused.get() + 1);
            self.depth.set(d);
        }
    }

    fn op_inner(&self) {
        let x = self.below(100);
        match x {
            0..=3 => self.op_new(),
            4..=11 => self.op_advance(),
            12..=15 => {
                self.hit(34);
                let it = self.take(|_| true);
                drop(it)
            }
            16..=18 => self.op_text(),
            19..=22 => self.op_green(),
            23..=24 => self.op_builder(),
            25..=27 => self.op_borrowed(),
            28..=29 => self.op_misc(),
            30..=46 => self.op_edit(),
            _ => match self.any_el() {
                Some(NodeOrToken::Node(n)) => self.op_node(&n),
                Some(NodeOrToken::Token(t)) => self.op_token(&t),
                None => self.op_new(),
            },
        }
    }

    fn op_new(&self) {
        self.hit(36);
        let mut rng = self.fork();
        let budget = *rng.pick(&[1, 3, 6, 10, 16]);
        let t = rand_term(&mut rng, budget);
        let g = match rng.below(3) {
            0 => node_of(&t),
            1 => match self.take(|it| matches!(it, Item::Cache(_))) {
                Some(Item::Cache(mut c)) => {
                    let (g, _) = build(&mut rng, &t, Some(&mut c));
                    if rng.bool() {
                        self.put(Item::Cache(c));
                    }
                    g
                }
                _ => build(&mut rng, &t, None).0,
            },
            _ => build(&mut rng, &t, None).0,
        };
        if rng.pct(30) {
            self.put(Item::Green(g.clone().into()));
        }
        let root = if rng.pct(30) { SyntaxNode::new_root(g) } else { SyntaxNode::new_root_mut(g) };
        self.put(Item::El(root.into()));
    }

    fn op_edit(&self) {
        let mut rng = self.fork();
        match rng.below(10) {
            0..=2 => {
                self.hit(23);
                if let Some(e) = self.any_el() {
                    e.detach();
                    if rng.pct(50) {
                        self.put(Item::El(e));
                    }
                }
            }
            3..=7 => {
                let Some(n) = self.any_node() else { return };
                // keep the trees small
                if size_of_tree(&n) > 60 {
                    self.hit(23);
                    return n.detach();
                }
                let len = n.children_with_tokens().count();
                let a = rng.below(len + 1);
                let b = if rng.pct(5) { rng.below(len + 3) } else { rng.range(a, len) };
                let k = *rng.pick(&[0, 1, 1, 1, 2, 3]);
                let mut ins: Vec<SyntaxElement> = (0..k).filter_map(|_| self.any_el()).collect();
                if rng.pct(10) && !ins.is_empty() {
                    ins.push(ins[0].clone());
                }
                ins.retain(|it| size_of(it) < 60);
                if rng.pct(25) {
                    self.hit(46);
                    n.splice_children(
                        a..b,
                        ins.into_iter().map(|it| {
                            self.nested();
                            it
                        }),
                    );
                } else {
                    self.hit(24);
                    n.splice_children(a..b, ins);
                }
                if rng.bool() {
                    self.put(Item::El(n.into()));
                }
            }
            8 => {
                self.hit(25);
                match (self.any_el(), self.any_green()) {
                    (Some(NodeOrToken::Node(n)), NodeOrToken::Node(g)) => self.put(Item::Green(n.replace_with(g).into())),
                    (Some(NodeOrToken::Token(n)), NodeOrToken::Token(g)) => self.put(Item::Green(n.replace_with(g).into())),
                    _ => (),
                }
            }
            _ => {
                if let Some(n) = self.any_node() {
                    if rng.bool() {
                        self.hit(26);
                        let n = n.clone_for_update();
                        self.put(Item::El(n.into()));
                    } else {
                        self.hit(27);
                        self.put(Item::El(n.clone_subtree().into()));
                    }
                }
            }
        }
    }

    fn op_node(&self, n: &SyntaxNode) {
        let mut rng = self.fork();
        let len = u32::from(n.text_range().len());
        let o = u32::from(n.text_range().start());
        let pos = |rng: &mut Rng| TextSize::from(o.wrapping_add(rng.below(len as usize + 2) as u32));
        let dir = if rng.bool() { Direction::Next } else { Direction::Prev };
        let i = rng.below(27);
        match i {
            0 => self.el(n.parent()),
            1 => self.lazily(n.ancestors()),
            2 => self.put(Item::Kids(n.children())),
            3 => self.put(Item::Els(n.children_with_tokens())),
            4 if rng.bool() => self.el(n.first_child()),
            4 => self.el(n.first_child_or_token()),
            5 if rng.bool() => self.el(n.last_child()),
            5 => self.el(n.last_child_or_token()),
            6 => self.el(n.next_sibling()),
            7 => self.el(n.prev_sibling()),
            8 => self.el(n.next_sibling_or_token()),
            9 => self.el(n.prev_sibling_or_token()),
            10 => match self.take(|it| matches!(it, Item::El(_))) {
                Some(Item::El(NodeOrToken::Node(n))) if rng.bool() => self.el(n.to_next_sibling()),
                Some(Item::El(e)) => self.el(e.to_next_sibling_or_token()),
                _ => (),
            },
            11 => match rng.below(4) {
                0 => n.children().by_kind(self.matcher()).take(8).for_each(|it| self.put(Item::El(it.into()))),
                1 => n.children_with_tokens().by_kind(self.matcher()).take(8).for_each(|it| self.put(Item::El(it))),
                2 => {
                    let mut it = n.children();
                    it.next();
                    it.by_kind(self.matcher()).take(8).for_each(|_| self.nested());
                }
                _ => {
                    let mut it = n.children_with_tokens();
                    it.next();
                    it.by_kind(self.matcher()).take(8).for_each(|_| self.nested());
                }
            },
            12 => self.el(n.first_token()),
            13 => self.el(n.last_token()),
            14 => self.lazily(n.siblings(dir)),
            15 => self.lazily(n.siblings_with_tokens(dir)),
            16 => self.lazily(n.descendants()),
            17 => self.lazily(n.descendants_with_tokens()),
            18 => self.put(Item::Pre(n.preorder())),
            19 => self.put(Item::PreT(n.preorder_with_tokens())),
            20 => {
                for t in n.token_at_offset(pos(&mut rng)) {
                    self.el(Some(t));
                }
            }
            21 | 22 => {
                let (a, b) = (pos(&mut rng), pos(&mut rng));
                let r = TextRange::new(a.min(b), a.max(b));
                if i == 21 {
                    self.el(Some(n.covering_element(r)))
                } else {
                    self.el(n.child_or_token_at_range(r))
                }
            }
            23 => {
                self.hit(28);
                return self.put(Item::Text(n.text()));
            }
            24 => {
                self.hit(29);
                let g = n.green();
                if rng.bool() {
                    self.nested();
                }
                let g: GreenEl = g.into_owned().into();
                return self.put(Item::Green(g));
            }
            25 => {
                self.hit(42);
                match rng.below(4) {
                    0 => self.el(n.first_child_by_kind(&self.matcher())),
                    1 => self.el(n.first_child_or_token_by_kind(&self.matcher())),
                    2 => self.el(n.next_sibling_by_kind(&self.matcher())),
                    _ => self.el(n.next_sibling_or_token_by_kind(&self.matcher())),
                }
                return;
            }
            _ => {
                self.hit(45);
                let _ = (n.index(), n.kind(), n.text_range(), n.is_mutable());
                return;
            }
        }
        self.hit(i)
    }

    fn op_token(&self, t: &SyntaxToken) {
        let mut rng = self.fork();
        let dir = if rng.bool() { Direction::Next } else { Direction::Prev };
        match rng.below(10) {
            0 => {
                self.hit(0);
                self.el(t.parent())
            }
            1 => {
                self.hit(1);
                self.lazily(t.ancestors())
            }
            2 => {
                self.hit(8);
                self.el(t.next_sibling_or_token())
            }
            3 => {
                self.hit(9);
                self.el(t.prev_sibling_or_token())
            }
            4 => {
                self.hit(32);
                self.el(t.next_token())
            }
            5 => {
                self.hit(33);
                self.el(t.prev_token())
            }
            6 => {
                self.hit(15);
                self.lazily(t.siblings_with_tokens(dir))
            }
            7 => {
                self.hit(42);
                self.el(t.next_sibling_or_token_by_kind(&self.matcher()))
            }
            8 => {
                self.hit(45);
                let _ = (t.index(), t.kind(), t.text_range(), t.text().len());
            }
            _ => {
                self.hit(29);
                self.put(Item::Green(t.green().to_owned().into()))
            }
        }
    }

    /// Advances an iterator (or a handle in place).
    fn op_advance(&self) {
        self.hit(37);
        let it = self.take(|it| !matches!(it, Item::El(_) | Item::Green(_) | Item::Text(_) | Item::Ptr(_) | Item::Typed(_)));
        let Some(mut it) = it else { return };
        let k = 1 + self.below(3);
        for _ in 0..k {
            match &mut it {
                Item::Kids(i) => self.el(i.next()),
                Item::Els(i) => self.el(i.next()),
                Item::Pre(i) => {
                    if self.pct(15) {
                        i.skip_subtree()
                    }
                    self.el(i.next().map(|it| match it {
                        rowan::WalkEvent::Enter(n) | rowan::WalkEvent::Leave(n) => n,
                    }))
                }
                Item::PreT(i) => {
                    if self.pct(15) {
                        i.skip_subtree()
                    }
                    self.el(i.next().map(|it| match it {
                        rowan::WalkEvent::Enter(n) | rowan::WalkEvent::Leave(n) => n,
                    }))
                }
                _ => (),
            }
        }
        if self.pct(15) {
            match &it {
                Item::Kids(i) => self.put(Item::Kids(i.clone())),
                Item::Els(i) => self.put(Item::Els(i.clone())),
                _ => (),
            }
        }
        if self.pct(85) {
            self.put(it)
        }
    }

    fn op_text(&self) {
        self.hit(38);
        let Some(Item::Text(t)) = self.take(|it| matches!(it, Item::Text(_))) else {
            if let Some(n) = self.any_node() {
                self.put(Item::Text(n.text()));
            }
            return;
        };
        let mut rng = self.fork();
        let len = u32::from(t.len()) as usize;
        let p = |rng: &mut Rng| TextSize::from(rng.below(len + 2) as u32);
        match rng.below(8) {
            0 => {
                let (a, b) = (p(&mut rng), p(&mut rng));
                let s = t.slice(a.min(b)..a.max(b));
                self.put(Item::Text(s));
            }
            1 => {
                let _ = t.char_at(p(&mut rng));
            }
            2 => {
                let _ = (t.contains_char('a'), t.find_char('é'), t.len(), t.is_empty());
            }
            3 => t.for_each_chunk(|c| {
                let copy = c.to_string();
                self.nested();
                assert!(c == copy);
            }),
            4 => {
                let mut n = 0;
                let r = t.try_for_each_chunk(|c| {
                    n += c.len();
                    self.nested();
                    if n > 5 {
                        Err(())
                    } else {
                        Ok(())
                    }
                });
                drop(r)
            }
            5 => {
                let r = t.try_fold_chunks(0usize, |a, c| {
                    let copy = c.to_string();
                    self.nested();
                    assert!(c == copy);
                    Ok::<_, ()>(a + c.len())
                });
                drop(r)
            }
            6 => {
                let _ = (t.to_string(), format!("{:?}", t), String::from(t.clone()));
            }
            _ => {
                if let Some(n) = self.any_node() {
                    let _ = (t == n.text(), t == "abc", n.text() == t);
                }
            }
        }
        self.put(Item::Text(t));
    }

    fn op_green(&self) {
        self.hit(39);
        let mut rng = self.fork();
        let g = self.any_green();
        let h = self.any_green();
        match (&g, rng.below(9)) {
            (NodeOrToken::Node(n), 0) => {
                let len = n.children().len();
                self.put(Item::Green(n.insert_child(rng.below(len + 2), h).into()))
            }
            (NodeOrToken::Node(n), 1) => {
                let len = n.children().len();
                self.put(Item::Green(n.remove_child(rng.below(len + 1)).into()))
            }
            (NodeOrToken::Node(n), 2) => {
                let len = n.children().len();
                self.put(Item::Green(n.replace_child(rng.below(len + 1), h).into()))
            }
            (NodeOrToken::Node(n), 3) => {
                let len = n.children().len();
                let a = rng.below(len + 1);
                let b = rng.below(len + 2);
                let ins: Vec<_> = (0..rng.below(3)).map(|_| self.any_green()).collect();
                if rng.bool() {
                    self.put(Item::Green(n.splice_children(a..b, ins).into()))
                } else {
                    let ins = ins.into_iter().map(|it| {
                        self.nested();
                        it
                    });
                    self.put(Item::Green(n.splice_children(a..b, ins).into()))
                }
            }
            (NodeOrToken::Node(n), 4) => {
                let mut it = n.children();
                let borrowed: Vec<_> = (0..4).filter_map(|_| if rng.bool() { it.next() } else { it.next_back() }).collect();
                self.nested();
                for b in borrowed {
                    self.put(Item::Green(b.to_owned()));
                }
            }
            (NodeOrToken::Node(n), 5) => {
                let tree = if rng.bool() { SyntaxNode::new_root(n.clone()) } else { SyntaxNode::new_root_mut(n.clone()) };
                self.put(Item::El(tree.into()))
            }
            (_, 6) => {
                let _ = (g == h, crate::nav::hash_of(&g) == crate::nav::hash_of(&h), format!("{:?}", g).len(), g.to_string());
            }
            (_, 7) => {
                let n = rng.below(4);
                let kids: Vec<_> = (0..n).map(|_| self.any_green()).collect();
                self.put(Item::Green(GreenNode::new(sk(rng.below(6) as u16), kids).into()))
            }
            _ => self.put(Item::Green(g)),
        }
    }

    fn op_builder(&self) {
        self.hit(40);
        let (mut b, mut open) = match self.take(|it| matches!(it, Item::Builder(..))) {
            Some(Item::Builder(b, n)) => (b, n),
            _ => (GreenNodeBuilder::new(), 0),
        };
        let mut rng = self.fork();
        let mut cps = Vec::new();
        for _ in 0..6 {
            match rng.below(7) {
                0 | 1 => {
                    b.start_node(sk(rng.below(6) as u16));
                    open += 1
                }
                2 | 3 => b.token(sk(rng.below(6) as u16), ["", "a", "bc", "a long piece of text"][rng.below(4)]),
                4 if open > 0 || rng.pct(5) => {
                    b.finish_node();
                    open = open.saturating_sub(1)
                }
                5 => cps.push(b.checkpoint()),
                _ => {
                    if let Some(cp) = cps.pop() {
                        b.start_node_at(cp, sk(rng.below(6) as u16));
                        open += 1
                    }
                }
            }
        }
        if rng.pct(20) {
            if rng.pct(80) {
                (0..open).for_each(|_| b.finish_node());
            }
            self.put(Item::Green(b.finish().into()))
        } else {
            self.put(Item::Builder(b, open))
        }
    }

    /// What was borrowed stays what it was while other operations run.
    fn op_borrowed(&self) {
        self.hit(41);
        match self.any_el() {
            Some(NodeOrToken::Token(t)) => {
                let s = t.text();
                let g = t.green();
                let copy = s.to_string();
                self.nested();
                let same = s == copy && g.text() == copy;
                if !same {
                    eprintln!("MONITOR: a borrowed text changed");
                    std::process::abort();
                }
            }
            Some(NodeOrToken::Node(n)) => {
                let g = n.green();
                let copy = g.to_string();
                self.nested();
                if g.to_string() != copy {
                    eprintln!("MONITOR: a borrowed green node changed");
                    std::process::abort();
                }
            }
            None => (),
        }
    }

    fn op_misc(&self) {
        let mut rng = self.fork();
        let (Some(a), Some(b)) = (self.any_el(), self.any_el()) else {
            return;
        };
        match rng.below(7) {
            0 => {
                self.hit(31);
                let _ = (a == b, crate::nav::hash_of(&a) == crate::nav::hash_of(&b));
            }
            1 => {
                self.hit(30);
                let _ = match &a {
                    NodeOrToken::Node(n) => (format!("{:?}", n), n.to_string()),
                    NodeOrToken::Token(n) => (format!("{:?}", n), n.to_string()),
                };
            }
            2 => {
                self.hit(43);
                if let NodeOrToken::Node(n) = a {
                    let t: SN = n.into();
                    let _ = format!("{:#?}", t);
                    self.put(Item::Typed(t));
                }
            }
            3 => {
                self.hit(44);
                match (self.take(|it| matches!(it, Item::Ptr(_))), a) {
                    (Some(Item::Ptr(p)), NodeOrToken::Node(n)) => {
                        self.put(Item::Ptr(p));
                        let r: SN = n.ancestors().last().unwrap().into();
                        if let Some(n) = p.try_to_node(&r) {
                            self.put(Item::Typed(n));
                        }
                    }
                    (_, NodeOrToken::Node(n)) => self.put(Item::Ptr(SyntaxNodePtr::new(&n.into()))),
                    _ => (),
                }
            }
            4 => {
                self.hit(43);
                if let Some(Item::Typed(t)) = self.take(|it| matches!(it, Item::Typed(_))) {
                    let c: SyntaxNode = t.into();
                    self.put(Item::El(c.into()));
                }
            }
            5 => {
                self.hit(47);
                self.put(Item::Cache(Box::default()));
            }
            _ => {
                self.hit(35);
                self.put(Item::El(a.clone()));
                self.put(Item::El(a));
            }
        }
    }
}

fn len_of(g: &GreenEl) -> TextSize {
    match g {
        NodeOrToken::Node(n) => n.text_len(),
        NodeOrToken::Token(n) => n.text_len(),
    }
}

fn size_of(e: &SyntaxElement) -> usize {
    match e {
        NodeOrToken::Node(n) => count(&n.green()),
        _ => 1,
    }
}

fn size_of_tree(n: &SyntaxNode) -> usize {
    n.ancestors().last().map_or(0, |it| count(&it.green()))
}

fn count(g: &rowan::GreenNodeData) -> usize {
    1 + g
        .children()
        .map(|it| match it {
            NodeOrToken::Node(n) => count(n),
            _ => 1,
        })
        .sum::<usize>()
}

/// Any public call, in any order, on anything at hand.
pub fn chaos(cx: &mut Ctx, rng: &mut Rng) -> R {
    let c = Chaos {
        pool: RefCell::default(),
        rng: RefCell::new(rng.fork()),
        depth: Cell::new(0),
        max: *rng.pick(&[6, 12, 24, 40]),
        stats: RefCell::new([0; 48]),
        refused: Cell::new(0),
        nested: Cell::new(0),
        sig: Cell::new(0),
    };
    let ops = if cx.tiny { rng.range(5, 25) } else { *rng.pick(&[20, 60, 150, 400]) };
    for _ in 0..ops {
        c.op();
    }
    for (i, n) in c.stats.borrow().iter().enumerate() {
        if *n > 0 {
            cx.add(&format!("call {}", OPS[i]), *n);
        }
    }
    cx.add("calls", ops as u64);
    cx.add("calls from inside of callbacks", c.nested.get());
    cx.add("calls that were refused", c.refused.get());
    cx.sig(c.sig.get());
    let Chaos { pool, .. } = c;
    let mut pool = pool.into_inner();
    rng.shuffle(&mut pool);
    cx.desc(|| format!("{} random calls, {} things dropped at the end", ops, pool.len()));
    while let Some(it) = pool.pop() {
        drop(it);
    }
    cx.checks += ops as u64;
    Ok(())
}

/// The workloads of the other properties.
pub const OTHERS: &[(&str, Case)] = &[
    ("C01", crate::green::c01),
    ("C02", crate::green::c02),
    ("C03", crate::green::c03),
    ("C04", crate::green::c04),
    ("C05", crate::nav::c05),
    ("C06", crate::nav::c06),
    ("C07", crate::nav::c07),
    ("C08", crate::nav::c08),
    ("C09", crate::nav::c09),
    ("C10", crate::text::c10),
    ("C11", crate::nav::c11),
    ("C12", crate::world::c12),
    ("C13", crate::world::c13),
    ("C14", crate::world::c14),
    ("C15", crate::world::c15),
    ("C20", crate::misc::c20),
    ("C21", crate::misc::c21),
    ("C22", crate::text::c22),
    ("C19", crate::misc::c19),
];

/// Great numbers of references to one thing, all at once and from different places; no count of them may wrap around.
pub fn crowd_of_references(cx: &mut Ctx, rng: &mut Rng) -> R {
    let n = if cx.tiny || cfg!(miri) { 300 } else { 66_000 + rng.below(3) * 33_000 };
    let green = || {
        let kids: Vec<GreenEl> = (0..4)
            .map(|i| {
                GreenNode::new(
                    sk(2),
                    vec![GreenToken::new(sk(3), ["ab", "c", "def", "\u{e9}"][i % 4]).into(), GreenToken::new(sk(4), ["c", "ab", "\u{e9}", "def"][i]).into()],
                )
                .into()
            })
            .collect();
        GreenNode::new(sk(1), kids)
    };
    let before = live();
    {
        let g = green();
        let mutable = rng.bool();
        let root = if mutable { SyntaxNode::new_root_mut(g.clone()) } else { SyntaxNode::new_root(g.clone()) };
        let whole = root.to_string();
        let node = root.first_child().unwrap();
        let token = node.first_token().unwrap();
        let (node_text, token_text) = (node.to_string(), token.text().to_string());
        match rng.below(7) {
            0 => {
                let all: Vec<SyntaxNode> = (0..n).map(|_| root.clone()).collect();
                drop((root, node, token));
                let last = &all[n - 1];
                ckeq!(cx, last.to_string(), whole, "text seen through one of many handles of a root");
                ckeq!(cx, last.first_token().unwrap().text(), token_text, "first token seen through one of many handles of a root");
            }
            1 => {
                let all: Vec<SyntaxNode> = (0..n).map(|_| node.clone()).collect();
                drop((root, node, token));
                let last = &all[n - 1];
                ckeq!(cx, last.to_string(), node_text, "text seen through one of many handles of a node");
                ckeq!(cx, last.parent().unwrap().to_string(), whole, "text of the tree seen through one of many handles of a node");
                if mutable {
                    last.detach();
                    ck!(cx, all[0].parent().is_none(), "a node detached through one of many handles has a parent in another");
                    ckeq!(cx, all[0].to_string(), node_text, "text of a node detached through one of many handles");
                }
            }
            2 => {
                let all: Vec<SyntaxToken> = (0..n).map(|_| token.clone()).collect();
                drop((root, node, token));
                let last = &all[n - 1];
                ckeq!(cx, last.text(), token_text, "text seen through one of many handles of a token");
                ckeq!(cx, last.ancestors().last().unwrap().to_string(), whole, "text of the tree seen through one of many handles of a token");
            }
            3 => {
                // the handles come from asking, not from cloning
                let all: Vec<SyntaxNode> = (0..n).map(|i| if i % 2 == 0 { root.first_child().unwrap() } else { token.parent().unwrap() }).collect();
                drop((root, node, token));
                ckeq!(cx, all[n - 1].to_string(), node_text, "text seen through one of many handles of a node");
                ckeq!(cx, all[1].ancestors().last().unwrap().to_string(), whole, "text of the tree seen through one of many handles of a node");
            }
            4 => {
                // many trees of one green tree, many copies of it
                let all: Vec<GreenNode> = (0..n).map(|_| g.clone()).collect();
                let trees: Vec<SyntaxNode> = (0..1000.min(n)).map(|_| SyntaxNode::new_root(g.clone())).collect();
                drop((root, node, token));
                drop(all);
                drop(g);
                ckeq!(cx, trees[trees.len() - 1].to_string(), whole, "text of one of many trees of a green node");
            }
            5 => {
                // one token shared by all children of a node, one node shared too
                let t = GreenToken::new(sk(3), "shared");
                let kid = GreenNode::new(sk(2), vec![t.clone().into()]);
                let big = GreenNode::new(sk(1), (0..n).map(|i| if i % 2 == 0 { t.clone().into() } else { kid.clone().into() }).collect::<Vec<GreenEl>>());
                let part = big.remove_child(n - 1);
                drop(big);
                ckeq!(cx, t.text(), "shared", "text of a token shared by many children");
                ckeq!(cx, kid.to_string(), "shared", "text of a node shared by many children");
                drop(part);
                ckeq!(cx, t.text(), "shared", "text of a token that many children shared");
                ckeq!(cx, kid.to_string(), "shared", "text of a node that many children shared");
            }
            _ => {
                // handles of texts and of iterators, and nodes kept alive by their children only
                let t = root.text();
                let all: Vec<SyntaxText> = (0..n).map(|_| t.clone()).collect();
                let iters: Vec<_> = (0..n).map(|_| node.children_with_tokens()).collect();
                drop((root, node, token, t));
                let mut last = iters.into_iter().last().unwrap();
                ckeq!(cx, last.next().unwrap().to_string(), token_text, "first child seen through one of many iterators");
                ck!(cx, all[n - 1] == whole.as_str(), "text seen through one of many texts");
            }
        }
    }
    let after = live();
    ckeq!(cx, (after.0 - before.0, after.1 - before.1), (0, 0), "live allocations and bytes left behind by a crowd of references");
    cx.add("references to one thing at a time", n as u64);
    cx.desc(|| format!("{} references", n));
    Ok(())
}

/// As many references to green data as a narrow count could hold, in a process of its own.
fn green_references_leaked(cx: &mut Ctx, rng: &mut Rng) -> R {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mode = if rng.bool() { "green node" } else { "green token" };
    let out = std::process::Command::new(exe)
        .env("MON_WRAP", mode)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let said = String::from_utf8_lossy(&out.stdout).into_owned();
    ck!(cx, said.contains("START"), "the process that leaks green references did not start");
    ck!(cx, !said.contains("WRONG"), "after 2^32 leaked clones of a {} it is released or changed under its remaining owners", mode);
    let signal = std::os::unix::process::ExitStatusExt::signal(&out.status);
    ck!(cx, !matches!(signal, Some(7 | 11)), "after 2^32 leaked clones of a {} its use ends in signal {:?}", mode, signal);
    cx.count(if said.contains("LATE") { "green references leaked until out of time" } else { "2^32 green references leaked" });
    cx.desc(|| format!("2^32 leaked clones of a {}", mode));
    Ok(())
}

const OTHER_SPECIALS: &[(usize, Special)] =
    &[(6, crate::green::c01_special), (4, crate::green::c02_special), (4, crate::nav::c05_special), (3, crate::nav::c08_special)];

pub fn c16(cx: &mut Ctx, rng: &mut Rng) -> R {
    match rng.below(20) {
        0..=9 => {
            cx.count("cases of arbitrary calls");
            chaos(cx, rng)
        }
        10..=13 => {
            cx.count("cases of unjudged edit histories");
            let _ = catch(|| crate::world::history(cx, rng, Focus::Blind));
            Ok(())
        }
        14 => {
            cx.count("cases of lying iterators");
            let _ = catch(|| crate::misc::lying(cx, rng, false));
            Ok(())
        }
        15 => {
            cx.count("cases of misused builders");
            let _ = catch(|| crate::misc::misbuild(cx, rng));
            Ok(())
        }
        _ => {
            let (name, case) = rng.pick(OTHERS);
            cx.count(&format!("cases of the workload of {}", name));
            // What it finds is for its own check to report.
            let _ = catch(|| case(cx, rng));
            Ok(())
        }
    }
}

pub fn c16_special(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    match which {
        // a count of references that does not fit
        0 | 1 => {
            if cx.tiny || cfg!(miri) {
                return Ok(());
            }
            let mode = if which == 0 { "handles" } else { "mutable handles" };
            let exe = std::env::current_exe().map_err(|e| e.to_string())?;
            let out = std::process::Command::new(exe)
                .env("MON_WRAP", mode)
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .output()
                .map_err(|e| e.to_string())?;
            let said = String::from_utf8_lossy(&out.stdout).into_owned();
            ck!(cx, said.contains("START"), "the process that leaks handles did not start");
            ck!(cx, !said.contains("SURVIVED"), "after 2^32 leaked clones of a handle the program goes on, with a reference count that has wrapped around");
            cx.count("reference counts driven to their limit");
            cx.desc(|| format!("2^32 leaked clones of {}", mode));
            Ok(())
        }
        2..=4 => crowd_of_references(cx, rng),
        5 => {
            // (only where it is fast enough)
            if cx.tiny || cfg!(any(miri, debug_assertions)) {
                return Ok(());
            }
            green_references_leaked(cx, rng)
        }
        _ => {
            let (n, case) = OTHER_SPECIALS[which - 6];
            cx.count("deep, wide and long shapes");
            for i in 0..n {
                let _ = catch(|| case(cx, rng, i));
            }
            Ok(())
        }
    }
}

pub const C16_SPECIALS: usize = 6 + OTHER_SPECIALS.len();

/// The body of the process that leaks 2^32 handles.
pub fn wrap_child(mode: &str) -> i32 {
    use std::io::Write;
    let g = GreenNode::new(sk(1), vec![GreenToken::new(sk(2), "x").into()]);
    if mode.starts_with("green") {
        return wrap_green(mode == "green token");
    }
    let root = if mode == "handles" { SyntaxNode::new_root(g) } else { SyntaxNode::new_root_mut(g) };
    println!("START");
    let _ = std::io::stdout().flush();
    for _ in 0..(1u64 << 32) + 16 {
        std::mem::forget(std::hint::black_box(&root).clone());
    }
    println!("SURVIVED");
    let _ = std::io::stdout().flush();
    std::process::exit(0)
}

fn wrap_green(token: bool) -> i32 {
    let say = |it: &str| {
        use std::io::Write;
        println!("{}", it);
        let _ = std::io::stdout().flush();
    };
    let t = GreenToken::new(sk(2), "x");
    let g = GreenNode::new(sk(1), vec![t.clone().into()]);
    let root = SyntaxNode::new_root(g.clone());
    say("START");
    let until = std::time::Instant::now() + std::time::Duration::from_secs(60);
    for i in 0..u32::MAX {
        if i & 0xff_ffff == 0 && std::time::Instant::now() > until {
            say("LATE");
            std::process::exit(0);
        }
        if token {
            std::mem::forget(std::hint::black_box(&t).clone());
        } else {
            std::mem::forget(std::hint::black_box(&g).clone());
        }
    }
    drop((g, t));
    // (takes the place of what was released by mistake)
    let others: Vec<_> = (0..8).map(|i| GreenNode::new(sk(9 + i), vec![GreenToken::new(sk(8), "z").into()])).collect();
    let right = root.kind().0 == 1 && root.first_token().is_some_and(|it| it.kind().0 == 2 && it.text() == "x");
    say(if right { "RIGHT" } else { "WRONG" });
    drop(others);
    std::process::exit(0)
}

// ---------------------------------------------------------------------------------------------
// C17

thread_local! {
    pub static PANICS: Cell<u64> = const { Cell::new(0) };
}

fn live() -> (i64, i64) {
    crate::alloc::live()
}

pub fn c17(cx: &mut Ctx, rng: &mut Rng) -> R {
    // counting must not allocate while something is being measured
    for what in ["holders dropped", "drop orders", "routes compared", "edits before comparing memory"] {
        cx.add(what, 0);
    }
    match rng.below(10) {
        0..=1 => balanced(cx, rng),
        2 => swept(cx, rng),
        3..=4 => drop_orders(cx, rng),
        5 => routes(cx, rng),
        6..=7 => reachable(cx, rng),
        _ => cycles(cx, rng),
    }
}

/// A case of another property leaves nothing behind.
fn balanced(cx: &mut Ctx, rng: &mut Rng) -> R {
    let (name, case) = OTHERS[rng.below(OTHERS.len() - 1)];
    let seed = rng.u64();
    let (thorough, tiny) = (cx.thorough, cx.tiny);
    // The first two runs are for what is initialized once. What two runs of different cases leave
    // behind must not differ: something kept for the last of them would.
    let seeds = [seed, seed ^ 1];
    let mut last = [(0, 0); 4];
    for round in 0..4 {
        let panics = PANICS.with(|it| it.get());
        let before = live();
        let (ok, checks) = {
            let mut c = Ctx::new(thorough, tiny);
            let ok = case(&mut c, &mut Rng::new(seeds[round % 2])).is_ok();
            (ok, c.checks)
        };
        let after = live();
        if !ok || PANICS.with(|it| it.get()) != panics {
            cx.count("cases left unjudged, they panicked or failed");
            return Ok(());
        }
        last[round] = (after.0 - before.0, after.1 - before.1);
        if round > 1 {
            cx.add("checks in balanced cases", checks);
        }
        cx.sig(checks ^ seed);
    }
    for round in 2..4 {
        ckeq!(cx, last[round], (0, 0), "live allocations and bytes left behind by a case of {} (seed {:#x})", name, seeds[round % 2]);
    }
    cx.count(&format!("balanced cases of {}", name));
    Ok(())
}

/// Everything that can be asked of a tree, once.
fn sweep(rng: &mut Rng, root: &SyntaxNode) {
    use std::{collections::hash_map::DefaultHasher, hash::Hash};
    let mut h = DefaultHasher::new();
    let n = root.descendants_with_tokens().count();
    let len = u32::from(root.text_range().len());
    let start = root.text_range().start();
    let t = root.text();
    drop((t.to_string(), format!("{:?}", t), String::from(t.clone()), t == root.text(), t == "abc"));
    let mut at = 0;
    let mut parts = Vec::new();
    t.for_each_chunk(|c| {
        at += c.len() as u32;
        if parts.len() < 8 && rng.bool() {
            parts.push(at);
        }
    });
    for p in parts {
        let s = t.slice(TextSize::from(p)..);
        drop((String::from(s.clone()), s.to_string(), s.slice(..s.len()), s.char_at(0.into()), s.find_char('b'), s == t));
        let s = t.slice(..TextSize::from(p));
        drop((String::from(s.clone()), s.contains_char('e'), s.try_fold_chunks(0, |a, c| if a > 100 { Err(()) } else { Ok(a + c.len()) })));
    }
    drop((root.to_string(), format!("{:?}", root), format!("{:#?}", root)));
    let g = root.green().into_owned();
    g.hash(&mut h);
    drop((g.to_string(), format!("{:?}", g), *g == *root.green(), g.children().rev().count()));
    if n < 3000 {
        let typed = SN::new_root(g.clone());
        drop((typed.to_string(), format!("{:#?}", typed), serde_json::to_string(&typed)));
        let kids = g.children().len();
        if kids > 0 {
            let i = rng.below(kids);
            drop((g.remove_child(i), g.splice_children(i.., vec![]), g.replace_child(i, GreenToken::new(sk(1), "x").into())));
        }
    }
    if !root.is_mutable() {
        drop(root.clone_for_update());
    }
    drop((root.clone_subtree(), root.ancestors().count(), root.last_token(), root.first_token()));
    for e in root.descendants_with_tokens().step_by(1 + n / 40) {
        e.hash(&mut h);
        drop((e.next_sibling_or_token(), e.prev_sibling_or_token(), e.first_token(), e.last_token(), e.ancestors().count()));
        drop(root.covering_element(e.text_range()));
        drop(root.child_or_token_at_range(e.text_range()));
        match &e {
            NodeOrToken::Node(e) => {
                drop((e.green().to_owned(), String::from(e.text()), e.clone_subtree(), format!("{:?}", e)));
                drop((e.children().by_kind(|k| k.0 % 2 == 0).last(), e.children_with_tokens().nth(1), e.preorder().nth(2)));
                drop((e.siblings(Direction::Next).nth(1), e.siblings_with_tokens(Direction::Prev).nth(1)));
                drop((e.first_child_or_token_by_kind(&|k| k.0 % 3 == 1), e.last_child_or_token(), e.next_sibling()));
                let typed = <SN as From<SyntaxNode>>::from(e.clone());
                if !e.is_mutable() {
                    let ptr = SyntaxNodePtr::new(&typed);
                    drop((ptr.try_to_node(&<SN as From<SyntaxNode>>::from(root.clone())), ptr));
                }
            }
            NodeOrToken::Token(e) => {
                drop((e.next_token(), e.prev_token(), e.text().to_string(), e.to_string(), format!("{:?}", e), e.green().to_owned()));
                drop(e.ancestors().count());
            }
        }
    }
    for _ in 0..8 {
        drop(root.token_at_offset(start + TextSize::from(rng.below(len as usize + 1) as u32)));
    }
    if root.is_mutable() {
        let kids = root.children_with_tokens().count();
        let i = rng.below(kids + 1);
        root.splice_children(i..kids, vec![]);
        if let Some(e) = root.first_child_or_token() {
            e.detach();
        }
    }
}

/// Once everything has been asked of a tree and the tree is gone, nothing is left of it, whatever
/// the tree was. The rounds are about trees of different sizes: what is kept for the last one shows.
fn swept(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = if cx.tiny { 8 } else { *rng.pick(&[20, 100, 400]) };
    let (a, b) = (rand_shape(rng, budget), rand_shape(rng, budget / 2 + 1));
    cx.sig(a.sig() ^ b.sig());
    let c = tiny_term(rng);
    sweep_all(cx, rng, &[a, b, c])
}

fn sweep_all(cx: &mut Ctx, rng: &mut Rng, terms: &[Arc<T>]) -> R {
    let (seed, flavor) = (rng.u64(), rng.below(4));
    let mut lives = [(0, 0); 8];
    let before = live();
    for (i, term) in terms.iter().chain(terms).enumerate() {
        let rng = &mut Rng::new(seed);
        if !term.is_node() {
            return Ok(());
        }
        let g = node_of(term);
        match flavor {
            0 => sweep(rng, &SyntaxNode::new_root(g)),
            1 => sweep(rng, &SyntaxNode::new_root_mut(g)),
            2 => sweep(rng, &SyntaxNode::new_root(g).clone_for_update()),
            _ => {
                // of a part of a tree
                let root = SyntaxNode::new_root(GreenNode::new(sk(7), [GreenToken::new(sk(8), "before").into(), g.into()]));
                sweep(rng, &root.first_child().unwrap());
            }
        }
        lives[i] = live();
        cx.checks += 1;
    }
    let n = terms.len();
    for i in n..2 * n {
        ckeq!(cx, lives[i], lives[n], "live allocations and bytes after everything was asked of {} trees, {:?} before", i + 1, before);
    }
    cx.count("trees swept");
    cx.desc(|| {
        format!(
            "everything asked of {}",
            terms.iter().map(|it| if it.count() < 50 { it.show() } else { "a big tree".into() }).collect::<Vec<_>>().join(" and ")
        )
    });
    Ok(())
}

/// One thing that keeps memory alive, and what must be readable through it.
enum Hold {
    El(SyntaxElement, String),
    Kids(SyntaxElementChildren, usize),
    Pre(#[allow(dead_code)] PreorderWithTokens),
    Text(SyntaxText, String),
    Green(GreenEl, String),
    Cache(#[allow(dead_code)] Box<NodeCache>),
    Typed(SN, String),
    Builder(#[allow(dead_code)] GreenNodeBuilder<'static>),
}

fn el_text(e: &SyntaxElement) -> String {
    match e {
        NodeOrToken::Node(n) => n.green().to_string(),
        NodeOrToken::Token(t) => t.text().to_string(),
    }
}

impl Hold {
    fn check(&self, cx: &mut Ctx) -> R {
        match self {
            Hold::El(e, s) => {
                ckeq!(cx, &el_text(e), s, "text of a handle while others are dropped");
                let root = match e.ancestors().last() {
                    Some(it) => it,
                    None => return Ok(()),
                };
                ck!(cx, root.text_range().contains_range(e.text_range()), "range of a handle while others are dropped");
            }
            Hold::Kids(it, n) => {
                ckeq!(cx, it.clone().count(), *n, "elements left in an iterator while others are dropped")
            }
            Hold::Pre(_) => (),
            Hold::Text(t, s) => ckeq!(cx, &t.to_string(), s, "text view while others are dropped"),
            Hold::Green(g, s) => ckeq!(cx, &g.to_string(), s, "text of a green element while others are dropped"),
            Hold::Typed(n, s) => ckeq!(cx, &n.text().to_string(), s, "text of a typed handle while others are dropped"),
            Hold::Cache(_) | Hold::Builder(_) => (),
        }
        Ok(())
    }
}

fn pick_el(rng: &mut Rng, root: &SyntaxNode) -> SyntaxElement {
    let n = root.descendants_with_tokens().count();
    let i = rng.below(n);
    root.descendants_with_tokens().nth(i).unwrap()
}

/// The same handful of holders, dropped in many orders: readable up to the end, all released at the end.
fn drop_orders(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = if cx.tiny { 6 } else { *rng.pick(&[3, 8, 15, 30]) };
    let term = rand_term(rng, budget);
    let k = rng.range(2, 5);
    let seed = rng.u64();
    let mutable = rng.bool();
    let perms = if k <= 3 { 6 } else { 16 };
    cx.sig(term.sig() ^ seed);
    cx.desc(|| format!("{} holders of {} dropped in {} orders", k, term.show(), perms));
    for _ in 0..perms {
        let mut order: Vec<usize> = (0..k).collect();
        rng.shuffle(&mut order);
        let before = live();
        {
            let mut holds = setup_holds(&mut Rng::new(seed), &term, k, mutable);
            let mut slots: Vec<Option<Hold>> = holds.drain(..).map(Some).collect();
            drop(holds);
            for i in &order {
                for s in slots.iter().flatten() {
                    s.check(cx)?;
                }
                cx.count("holders dropped");
                if rng.pct(8) {
                    // in place: advance to the end instead of dropping
                    if let Some(Hold::El(e, _)) = slots[*i].take() {
                        let mut cur = Some(e);
                        while let Some(e) = cur {
                            cur = e.to_next_sibling_or_token();
                        }
                    }
                }
                slots[*i] = None;
            }
        }
        let after = live();
        ckeq!(
            cx,
            (after.0 - before.0, after.1 - before.1),
            (0, 0),
            "live allocations and bytes left after {} holders of {} tree {} were dropped in the order {:?} (seed {:#x})",
            k,
            if mutable { "a mutable" } else { "an immutable" },
            term.show(),
            order,
            seed
        );
        cx.count("drop orders");
    }
    Ok(())
}

fn setup_holds(rng: &mut Rng, term: &Arc<T>, k: usize, mutable: bool) -> Vec<Hold> {
    let mut holds = Vec::with_capacity(8);
    let mut cache = Box::<NodeCache>::default();
    let with_cache = rng.bool();
    let (g, _) = build(rng, term, with_cache.then_some(&mut cache));
    let root = if mutable { SyntaxNode::new_root_mut(g.clone()) } else { SyntaxNode::new_root(g.clone()) };
    if with_cache {
        holds.push(Hold::Cache(cache));
    }
    if mutable && rng.bool() {
        // take something out first
        let e = pick_el(rng, &root);
        if rng.bool() {
            e.detach();
        }
        let s = el_text(&e);
        holds.push(Hold::El(e, s));
    }
    while holds.len() < k {
        let h = match rng.below(9) {
            0 | 1 => {
                let e = pick_el(rng, &root);
                let s = el_text(&e);
                Hold::El(e, s)
            }
            2 => {
                let mut it = root.children_with_tokens();
                let n = it.clone().count();
                let skip = rng.below(n + 1);
                (0..skip).for_each(|_| drop(it.next()));
                Hold::Kids(it, n - skip)
            }
            3 => {
                let mut it = root.preorder_with_tokens();
                (0..rng.below(6)).for_each(|_| drop(it.next()));
                Hold::Pre(it)
            }
            4 => {
                let n = pick_el(rng, &root).ancestors().next().unwrap_or_else(|| root.clone());
                let s = n.green().to_string();
                Hold::Text(n.text(), s)
            }
            5 => {
                let s = g.to_string();
                Hold::Green(g.clone().into(), s)
            }
            6 => {
                let e = pick_el(rng, &root);
                let s = el_text(&e);
                let g = match e {
                    NodeOrToken::Node(n) => n.green().into_owned().into(),
                    NodeOrToken::Token(n) => n.green().to_owned().into(),
                };
                Hold::Green(g, s)
            }
            7 => {
                let s = root.green().to_string();
                Hold::Typed(root.clone().into(), s)
            }
            _ => {
                let mut b = GreenNodeBuilder::new();
                b.start_node(sk(1));
                b.token(sk(2), "left open");
                Hold::Builder(b)
            }
        };
        holds.push(h);
    }
    holds
}

/// However an element was reached, holding just that element holds the same memory.
fn routes(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = if cx.tiny { 6 } else { *rng.pick(&[5, 12, 30]) };
    let term = rand_term(rng, budget);
    cx.sig(term.sig());
    let g = node_of(&term);
    let mutable = rng.bool();
    let new = |g: &GreenNode| {
        if mutable {
            SyntaxNode::new_root_mut(g.clone())
        } else {
            SyntaxNode::new_root(g.clone())
        }
    };
    let flat = crate::term::Flat::new(&term);
    let id = rng.below(flat.kind.len());
    let mut path = flat.path(id);
    path.shrink_to_fit();
    cx.desc(|| format!("element {} of {} by many routes", id, term.show()));
    let straight = |root: SyntaxNode| -> SyntaxElement {
        let mut cur: SyntaxElement = root.into();
        for i in &path {
            cur = cur.into_node().unwrap().children_with_tokens().nth(*i).unwrap();
        }
        cur
    };
    let base = live();
    let e = straight(new(&g));
    let want = live();
    let depth = e.ancestors().count() as i64;
    drop(e);
    let whole = |cx: &mut Ctx, what: &str, e: Option<SyntaxElement>| -> R {
        let Some(e) = e else { return Ok(()) };
        let got = live();
        drop(e);
        let end = live();
        ckeq!(cx, got, want, "live allocations and bytes with just one element held, reached by {}", what);
        ckeq!(cx, end, base, "live allocations and bytes after dropping an element reached by {}", what);
        cx.count("routes compared");
        Ok(())
    };
    // by walking
    let e = new(&g).descendants_with_tokens().nth(id);
    whole(cx, "descendants_with_tokens", e)?;
    // from the previous and the next one
    let e = {
        let e = straight(new(&g));
        e.prev_sibling_or_token().map(|p| {
            drop(e);
            p.next_sibling_or_token().unwrap()
        })
    };
    whole(cx, "prev and next", e)?;
    let e = {
        let e = straight(new(&g));
        e.next_sibling_or_token().map(|p| {
            drop(e);
            p.prev_sibling_or_token().unwrap()
        })
    };
    whole(cx, "next and prev", e)?;
    // in place, from the first sibling
    let e = {
        let e = straight(new(&g));
        e.parent().map(|p| {
            let i = e.index();
            drop(e);
            let mut cur = p.first_child_or_token().unwrap();
            drop(p);
            for _ in 0..i {
                cur = cur.to_next_sibling_or_token().unwrap();
            }
            cur
        })
    };
    whole(cx, "to_next_sibling_or_token", e)?;
    let e = {
        let e = straight(new(&g));
        match (e.parent(), &e) {
            (Some(p), NodeOrToken::Node(n)) => {
                let mut cur = p.first_child().unwrap();
                drop(p);
                while cur != *n {
                    cur = cur.to_next_sibling().unwrap();
                }
                Some(cur.into())
            }
            _ => None,
        }
    };
    whole(cx, "to_next_sibling", e)?;
    // in place, past the end
    {
        let e = straight(new(&g));
        let mut cur = Some(e);
        while let Some(e) = cur {
            cur = e.to_next_sibling_or_token();
        }
        let end = live();
        ckeq!(cx, end, base, "live allocations and bytes after advancing an element past the last sibling");
        let e = straight(new(&g));
        let mut cur = e.into_node();
        while let Some(e) = cur {
            cur = e.to_next_sibling();
        }
        let end = live();
        ckeq!(cx, end, base, "live allocations and bytes after advancing a node past the last sibling");
    }
    // by an iterator that is abandoned
    let e = {
        let e = straight(new(&g));
        e.parent().map(|p| {
            let i = e.index();
            let mut it = p.children_with_tokens();
            let e = it.nth(i);
            drop(p);
            drop(it);
            e.unwrap()
        })
    };
    whole(cx, "an abandoned iteration", e)?;
    // by lookup
    let e = {
        let root = new(&g);
        let e = straight(root.clone());
        match &e {
            NodeOrToken::Token(t) if !t.text().is_empty() => {
                let at = t.text_range().start();
                drop(e);
                root.token_at_offset(at).right_biased().map(|it| it.into())
            }
            NodeOrToken::Token(_) => None,
            NodeOrToken::Node(n) => {
                if mutable {
                    None
                } else {
                    let p: SyntaxNodePtr<Odd> = SyntaxNodePtr::new(&n.clone().into());
                    drop(e);
                    // what it resolves to is not for this check to say
                    let r: SN = root.into();
                    let got = p.try_to_node(&r);
                    drop(r);
                    let got: Option<SyntaxNode> = got.map(|it| it.into());
                    got.filter(|it| it.ancestors().count() as i64 == depth).map(|it| it.into())
                }
            }
        }
    };
    whole(cx, "lookup", e)?;
    // through a copy for update
    if !mutable {
        let e = {
            let e = straight(new(&g));
            match e {
                NodeOrToken::Node(n) => Some(n.clone_for_update().into()),
                _ => None,
            }
        };
        whole(cx, "clone_for_update", e)?;
    }
    Ok(())
}

/// After a history of edits, memory in use is what a fresh tree with the same handles uses.
fn reachable(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = if cx.tiny { 6 } else { *rng.pick(&[4, 10, 20]) };
    let term = rand_term(rng, budget);
    cx.sig(term.sig());
    let g = node_of(&term);
    let spare: Vec<GreenNode> = (0..3).map(|_| node_of(&rand_term(rng, 4))).collect();
    let mut held: Vec<SyntaxElement> = Vec::with_capacity(64);
    let mut paths: Vec<Vec<usize>> = Vec::with_capacity(64);
    let nothing = live();
    let root = SyntaxNode::new_root_mut(g.clone());
    let n_ops = if cx.tiny { 4 } else { *rng.pick(&[3, 10, 30]) };
    for _ in 0..n_ops {
        match rng.below(9) {
            0 | 1 => {
                if held.len() < 16 {
                    held.push(pick_el(rng, &root));
                }
            }
            2 => {
                if !held.is_empty() {
                    let i = rng.below(held.len());
                    held.swap_remove(i);
                }
            }
            3 => {
                let e = pick_el(rng, &root);
                if e.parent().is_some() {
                    e.detach();
                    if rng.bool() && held.len() < 16 {
                        held.push(e);
                    }
                }
            }
            4 | 5 => {
                let n = pick_el(rng, &root).into_node().unwrap_or_else(|| root.clone());
                let len = n.children_with_tokens().count();
                let a = rng.below(len + 1);
                let b = rng.range(a, len).min(a + 2);
                let mut ins: Vec<SyntaxElement> = Vec::new();
                for g in &spare {
                    if rng.pct(30) {
                        let r = SyntaxNode::new_root_mut(g.clone());
                        let inner = pick_el(rng, &r);
                        if inner.parent().is_some() && rng.bool() {
                            ins.push(inner)
                        } else {
                            ins.push(r.into())
                        }
                    }
                }
                if size_of_tree(&root) < 80 {
                    n.splice_children(a..b, ins);
                }
            }
            6 => {
                // move within the tree
                let e = pick_el(rng, &root);
                let n = pick_el(rng, &root).into_node().unwrap_or_else(|| root.clone());
                let below = match &e {
                    NodeOrToken::Node(e) => n.ancestors().any(|it| it == *e),
                    _ => false,
                };
                if !below && e.parent().map_or(false, |it| it != n) {
                    n.splice_children(0..0, vec![e]);
                }
            }
            7 => {
                // advance in place
                if let Some(e) = held.pop() {
                    if let Some(e) = e.to_next_sibling_or_token() {
                        held.push(e);
                    }
                }
            }
            _ => {
                let mut it = root.preorder_with_tokens();
                (0..rng.below(8)).for_each(|_| drop(it.next()));
                let _ = (root.text().to_string(), root.green().into_owned());
            }
        }
        cx.count("edits before comparing memory");
    }
    // only what is in the main tree
    held.retain(|it| match it {
        NodeOrToken::Node(n) => n.ancestors().any(|it| it == root),
        NodeOrToken::Token(n) => n.ancestors().any(|it| it == root),
    });
    for e in &held {
        let mut p: Vec<usize> = Vec::new();
        let mut cur = e.clone();
        while let Some(up) = cur.parent() {
            p.push(cur.index());
            cur = up.into();
        }
        p.reverse();
        p.shrink_to_fit();
        paths.push(p);
    }
    let green = root.green().into_owned();
    let keep_root = rng.bool();
    let root = keep_root.then_some(root);
    let edited = live();
    // the same, fresh
    let n = held.len();
    held.clear();
    drop(root);
    let bare = live();
    let fresh_root = SyntaxNode::new_root_mut(green.clone());
    for p in &paths {
        let mut cur: SyntaxElement = fresh_root.clone().into();
        for i in p {
            match cur.into_node().and_then(|it| it.children_with_tokens().nth(*i)) {
                Some(it) => cur = it,
                None => return Ok(()),
            }
        }
        held.push(cur);
    }
    let fresh_root = keep_root.then_some(fresh_root);
    let fresh = live();
    ckeq!(cx, edited, fresh, "live allocations and bytes of an edited tree with {} handles, compared with a fresh one", n);
    held.clear();
    drop(fresh_root);
    ckeq!(cx, live(), bare, "live allocations and bytes with just the green tree left");
    drop(green);
    paths.clear();
    let end = live();
    // `paths` and `held` keep their buffers, the vectors in `paths` are gone
    ckeq!(cx, end, nothing, "live allocations and bytes after an edited tree is gone");
    cx.count("edited trees compared with fresh ones");
    cx.desc(|| format!("{} edits of {}, {} handles left", n_ops, term.show(), n));
    Ok(())
}

/// Doing and undoing again and again needs no more and no more memory.
fn cycles(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = if cx.tiny { 6 } else { *rng.pick(&[4, 10, 30, 60]) };
    let term = rand_term(rng, budget);
    cx.sig(term.sig());
    let flavor = *rng.pick(&[Pick::Mutable, Pick::Immutable]);
    let tree = make_tree(rng, &term, flavor, None)?;
    let root = tree.root.clone();
    let mutable = root.is_mutable();
    let seed = rng.u64();
    let which = rng.below(9);
    let ip = rng.below(flatten(&root));
    let mut cache = NodeCache::default();
    let g = root.green().into_owned();
    let matcher_calls = Rc::new(Cell::new(0u64));
    let mut first = None;
    let rounds = 6;
    for round in 0..rounds {
        let rng = &mut Rng::new(seed);
        match which {
            0 => {
                // take an element out and put it back
                let e = root.descendants_with_tokens().nth(ip).unwrap();
                if mutable {
                    if let Some(p) = e.parent() {
                        let i = e.index();
                        e.detach();
                        p.splice_children(i..i, vec![e]);
                    }
                }
            }
            1 => {
                // replace by a copy
                let e = root.descendants_with_tokens().nth(ip).unwrap();
                match e {
                    NodeOrToken::Node(n) => drop(n.replace_with(n.green().into_owned())),
                    NodeOrToken::Token(n) if n.parent().is_some() => drop(n.replace_with(n.green().to_owned())),
                    _ => (),
                }
            }
            2 => {
                if mutable {
                    let c = crate::tree::fresh_mut(&term).into_node().unwrap();
                    root.splice_children(0..0, vec![c.clone().into()]);
                    if rng.bool() {
                        drop(c);
                        root.splice_children(0..1, vec![]);
                    } else {
                        c.detach();
                    }
                }
            }
            3 => {
                let mut it = root.children();
                it.next();
                let mut it2 = root.children_with_tokens().by_kind(|k| {
                    matcher_calls.set(matcher_calls.get() + 1);
                    k.0 % 2 == 0
                });
                it2.next();
                drop(it.by_kind(|k| k.0 % 3 == 0).last());
                drop(it2);
            }
            4 => {
                let mut cur = root.first_child_or_token();
                while let Some(e) = cur {
                    cur = e.to_next_sibling_or_token();
                }
                let mut cur = root.first_child();
                while let Some(e) = cur {
                    cur = e.to_next_sibling();
                }
                drop(root.clone().to_next_sibling());
            }
            5 => {
                let t = root.text();
                let len = t.len();
                let half = TextSize::from(u32::from(len) / 2);
                let s = if t.to_string().is_char_boundary(u32::from(half) as usize) { t.slice(half..) } else { t.clone() };
                let _ = (s.to_string(), t == s, t.find_char('a'));
                let _ = s.try_for_each_chunk(|_| Err(()));
            }
            6 => {
                // the same tree from the same cache
                let mut b = GreenNodeBuilder::with_cache(&mut cache);
                crate::build::emit(&term, &mut b);
                drop(b.finish());
            }
            7 => {
                let n = g.children().len();
                let i = rng.below(n + 1);
                let h = g.insert_child(i, GreenToken::new(sk(3), "extra").into());
                let h = h.remove_child(i);
                drop(h.splice_children(0..n, vec![]));
            }
            _ => {
                for e in root.descendants_with_tokens().take(rng.below(30)) {
                    let (_, _) = (e.next_sibling_or_token(), e.first_token());
                    if let NodeOrToken::Token(t) = &e {
                        let _ = (t.next_token(), t.prev_token(), t.siblings_with_tokens(Direction::Prev).count());
                    }
                    if let NodeOrToken::Node(n) = &e {
                        let _ = (n.clone_subtree(), n.last_child(), n.siblings(Direction::Next).nth(1));
                        let r = n.text_range();
                        let _ = (root.covering_element(r), root.child_or_token_at_range(r), n.token_at_offset(r.end()));
                    }
                }
            }
        }
        let now = live();
        match (round, first) {
            // the first rounds may set something up: a cache, a table
            (0, _) => (),
            (1, _) => first = Some(now),
            (_, Some(first)) => {
                ckeq!(cx, now, first, "live allocations and bytes after round {} of cycle {} on {}", round, which, term.show())
            }
            _ => (),
        }
    }
    cx.add("rounds of cycles", rounds);
    cx.count(&format!("cycle {}", which));
    cx.desc(|| format!("cycle {} on {}", which, term.show()));
    Ok(())
}

fn flatten(root: &SyntaxNode) -> usize {
    root.descendants_with_tokens().count()
}

pub fn c17_special(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    if which >= 7 {
        return crowd_of_references(cx, rng);
    }
    if which >= 3 {
        // everything asked of big trees
        let n = if cx.tiny { 10 } else { 4000 };
        let long = Arc::new(T::N(1, vec![Arc::new(T::K(2, big_text(if cx.tiny { 4 } else { 16 })))]));
        let terms = [wide(rng, n), rand_shape(rng, n / 2), long, tiny_term(rng)];
        return sweep_all(cx, rng, &terms);
    }
    // a big tree through a cache, in two drop orders, then once more with a long chain of edits
    let n = if cx.tiny { 50 } else { 20_000 };
    let before = live();
    {
        let mut cache = Box::<NodeCache>::default();
        let mut b = GreenNodeBuilder::with_cache(&mut cache);
        b.start_node(sk(1));
        for i in 0..n {
            b.start_node(sk(2));
            b.token(sk(3), ["a", "b", "c"][i % 3]);
            b.token(sk(4), " ");
            b.finish_node();
        }
        b.finish_node();
        let g = b.finish();
        let root = SyntaxNode::new_root(g);
        match which {
            0 => {
                drop(root);
                drop(cache);
            }
            1 => {
                let last = root.last_child().unwrap();
                drop(cache);
                drop(root);
                ckeq!(cx, last.green().to_string(), format!("{} ", ["a", "b", "c"][(n - 1) % 3]), "text of what is left");
            }
            _ => {
                let m = root.clone_for_update();
                drop((root, cache));
                for _ in 0..if cx.tiny { 5 } else { 30 } {
                    let len = m.green().children().len();
                    let i = rng.below(len);
                    m.splice_children(i..i + 1, vec![]);
                }
            }
        }
    }
    let after = live();
    ckeq!(cx, (after.0 - before.0, after.1 - before.1), (0, 0), "live allocations and bytes left behind by a wide tree");
    cx.count("wide trees");
    Ok(())
}
