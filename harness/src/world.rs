//! Edit histories of mutable trees, against plain nested lists.
use std::{collections::HashMap, sync::Arc};

use rowan::{
    cursor::{SyntaxElement, SyntaxNode},
    Direction, GreenNode, GreenToken, NodeCache, NodeOrToken, SyntaxText,
};

use crate::{
    build::{build, same_green},
    ck, ckeq,
    nav::hash_of,
    rng::{mix, Rng},
    term::{chain, rand_shape, rand_term, same, wide, Flat, T},
    tree::{child_at, el, fresh_mut, locate_in, rng_of, same_tree, ts, Tree},
    util::{Ctx, R},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
    Edit,
    Handles,
    Copies,
    Iter,
    Ident,
    Misuse,
    /// Only run the operations, check nothing (memory monitors are watching).
    Blind,
}

#[derive(Clone)]
struct El {
    parent: Option<usize>,
    kids: Vec<usize>,
    kind: u16,
    text: Option<Arc<str>>,
}

enum Snap {
    Green(GreenNode, Arc<T>),
    Token(GreenToken, u16, Arc<str>),
    /// An immutable tree, a handle to somewhere inside, and where that is.
    Imm(SyntaxElement, Arc<T>, usize),
    Text(SyntaxText, String),
}

pub struct World {
    e: Vec<El>,
    pub h: Vec<(SyntaxElement, usize)>,
    snaps: Vec<Snap>,
    cache: NodeCache,
    focus: Focus,
    pub log: Vec<String>,
}

struct View {
    tree: Option<Tree>,
    ids: Vec<usize>,
    pos: HashMap<usize, usize>,
}

impl World {
    pub fn new(focus: Focus) -> World {
        World { e: Vec::new(), h: Vec::new(), snaps: Vec::new(), cache: NodeCache::default(), focus, log: Vec::new() }
    }

    // ---- model

    fn add(&mut self, t: &T) -> usize {
        let id = self.e.len();
        let (kind, text) = match t {
            T::N(k, _) => (*k, None),
            T::K(k, s) => (*k, Some(s.clone())),
        };
        self.e.push(El { parent: None, kids: Vec::new(), kind, text });
        for it in t.kids() {
            let k = self.add(it);
            self.e[k].parent = Some(id);
            self.e[id].kids.push(k);
        }
        id
    }
    fn root_of(&self, mut id: usize) -> usize {
        while let Some(p) = self.e[id].parent {
            id = p;
        }
        id
    }
    fn is_node(&self, id: usize) -> bool {
        self.e[id].text.is_none()
    }
    fn index(&self, id: usize) -> usize {
        match self.e[id].parent {
            Some(p) => self.e[p].kids.iter().position(|it| *it == id).unwrap(),
            None => 0,
        }
    }
    fn m_detach(&mut self, id: usize) {
        let i = self.index(id);
        if let Some(p) = self.e[id].parent.take() {
            self.e[p].kids.remove(i);
        }
    }
    fn m_attach(&mut self, p: usize, i: usize, id: usize) {
        self.m_detach(id);
        self.e[id].parent = Some(p);
        self.e[p].kids.insert(i, id);
    }
    fn within(&self, id: usize, top: usize) -> bool {
        let mut cur = Some(id);
        while let Some(it) = cur {
            if it == top {
                return true;
            }
            cur = self.e[it].parent;
        }
        false
    }
    fn term(&self, id: usize, order: &mut Vec<usize>) -> Arc<T> {
        order.push(id);
        Arc::new(match &self.e[id].text {
            Some(s) => T::K(self.e[id].kind, s.clone()),
            None => T::N(self.e[id].kind, self.e[id].kids.iter().map(|it| self.term(*it, order)).collect()),
        })
    }
    fn show(&self, id: usize) -> String {
        self.term(id, &mut Vec::new()).show()
    }
    fn roots(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.h.iter().map(|it| self.root_of(it.1)).collect();
        v.sort_unstable();
        v.dedup();
        v
    }
    fn members(&self, root: usize) -> Vec<usize> {
        let mut order = Vec::new();
        self.term(root, &mut order);
        order
    }
    fn all(&self) -> Vec<usize> {
        self.roots().into_iter().flat_map(|it| self.members(it)).collect()
    }

    // ---- handles

    fn view(&self, root: usize) -> R<View> {
        let (h, id) = self.h.iter().find(|it| self.root_of(it.1) == root).ok_or("no handle in the tree")?;
        let mut ids = Vec::new();
        let term = self.term(root, &mut ids);
        let pos: HashMap<usize, usize> = ids.iter().enumerate().map(|(i, id)| (*id, i)).collect();
        let mut depth = 0;
        let mut cur = *id;
        while let Some(p) = self.e[cur].parent {
            depth += 1;
            cur = p;
        }
        let mut top = h.clone();
        for _ in 0..depth {
            top = el(&top.parent().ok_or_else(|| format!("a handle to {} has too few ancestors", self.show(*id)))?);
        }
        if top.parent().is_some() {
            return Err(format!("the root of {} has a parent", self.show(*id)));
        }
        let tree = match top {
            NodeOrToken::Node(root) => {
                let flat = Flat::new(&term);
                Some(Tree { root, flat, term, flavor: "edited", keep: vec![], other: vec![] })
            }
            NodeOrToken::Token(_) => None,
        };
        Ok(View { tree, ids, pos })
    }

    /// Some handle to `id`, held or found.
    fn get(&self, rng: &mut Rng, id: usize) -> R<SyntaxElement> {
        let held: Vec<&SyntaxElement> = self.h.iter().filter(|it| it.1 == id).map(|it| &it.0).collect();
        if !held.is_empty() && rng.bool() {
            return Ok((*rng.pick(&held)).clone());
        }
        self.find(rng, id)
    }

    /// A handle to `id`, found anew from some handle in the same tree.
    fn find(&self, rng: &mut Rng, id: usize) -> R<SyntaxElement> {
        let root = self.root_of(id);
        let v = self.view(root)?;
        match &v.tree {
            Some(t) => t.reach(rng, v.pos[&id]),
            None => Ok(self.h.iter().find(|it| self.root_of(it.1) == root).unwrap().0.clone()),
        }
    }

    fn node(&self, rng: &mut Rng, id: usize) -> R<SyntaxNode> {
        self.get(rng, id)?.into_node().ok_or_else(|| format!("{} is not a node", self.show(id)))
    }

    fn hold(&mut self, e: SyntaxElement, id: usize) {
        self.h.push((e, id));
    }

    // ---- operations

    pub fn op_new(&mut self, cx: &mut Ctx, rng: &mut Rng, budget: usize) -> R {
        let t = match rng.below(12) {
            0 => chain(rng, if budget >= 400 { 200 } else { budget.min(25) }),
            1 => wide(rng, if budget >= 400 { budget } else { budget.min(60) }),
            2 => same(rng, budget.min(40)),
            3 => rand_shape(rng, budget),
            _ => rand_term(rng, budget),
        };
        let how = rng.below(6);
        let (e, what) = match how {
            0 => (fresh_mut(&t), "new tree"),
            1 | 2 => {
                let cache = (how == 1).then_some(&mut self.cache);
                let g = build(rng, &t, cache).0;
                if rng.pct(40) {
                    self.snaps.push(Snap::Green(g.clone(), t.clone()));
                }
                (el(&SyntaxNode::new_root_mut(g)), "new_root_mut")
            }
            3 if self.focus != Focus::Iter => {
                // just a token
                let tok = T::K(7, (*rng.pick(&["tok", "", "é", "x"])).into());
                let e = fresh_mut(&tok);
                let id = self.add(&tok);
                self.hold(e, id);
                self.log.push(format!("new token {}", tok.show()));
                return Ok(());
            }
            _ => {
                let g = build(rng, &t, None).0;
                let imm = SyntaxNode::new_root(g);
                let flat = Flat::new(&t);
                let nodes: Vec<usize> = (0..flat.n()).filter(|it| flat.is_node(*it)).collect();
                let at = *rng.pick(&nodes);
                let tree = Tree { root: imm, flat, term: t.clone(), flavor: "", keep: vec![], other: vec![] };
                let n = tree.node_at(at)?;
                return self.clone_node(cx, rng, &n, &t, at);
            }
        };
        let id = self.add(&t);
        self.hold(e, id);
        self.log.push(format!("{} {}", what, t.show()));
        Ok(())
    }

    /// `clone_for_update` of an immutable node: the `at`th element of `t`.
    fn clone_node(&mut self, cx: &mut Ctx, rng: &mut Rng, n: &SyntaxNode, t: &Arc<T>, at: usize) -> R {
        let m = n.clone_for_update();
        cx.count("op clone_for_update");
        self.log.push(format!("clone_for_update of element {} of {}", at, t.show()));
        if self.focus != Focus::Blind {
            let flat = Flat::new(t);
            let root = m.ancestors().last().ok_or("no ancestors")?;
            ck!(cx, m.is_mutable() && root.is_mutable(), "the mutable clone is not mutable");
            ck!(cx, !n.is_mutable(), "the source of a mutable clone became mutable");
            same_tree(&root, t).map_err(|e| format!("mutable clone of {}: {}", t.show(), e))?;
            ckeq!(cx, locate_in(&root, &flat, &el(&m))?, at, "position of the mutable clone in {}", t.show());
            ckeq!(cx, m.text_range(), n.text_range(), "range of the mutable clone in {}", t.show());
            ckeq!(cx, m.index(), n.index(), "index of the mutable clone in {}", t.show());
        }
        let first = self.e.len();
        self.add(t);
        self.hold(el(&m), first + at);
        if rng.bool() {
            self.snaps.push(Snap::Imm(el(n), t.clone(), at));
        }
        Ok(())
    }

    fn op_hold(&mut self, cx: &mut Ctx, rng: &mut Rng) -> R {
        let all = self.all();
        let id = *rng.pick(&all);
        let e = self.find(rng, id)?;
        cx.count("op acquire");
        self.log.push(format!("acquire {}", self.show(id)));
        self.hold(e, id);
        Ok(())
    }

    fn op_drop(&mut self, cx: &mut Ctx, rng: &mut Rng) {
        let i = rng.below(self.h.len());
        let (e, id) = self.h.swap_remove(i);
        let alone = !self.h.iter().any(|it| self.root_of(it.1) == self.root_of(id));
        cx.count(if alone { "op drop tree" } else { "op drop" });
        self.log.push(format!("drop {}", self.show(id)));
        drop(e);
    }

    fn op_detach(&mut self, cx: &mut Ctx, rng: &mut Rng) -> R {
        let all = self.all();
        let id = *rng.pick(&all);
        let e = self.get(rng, id)?;
        self.log.push(format!("detach {}", self.show(id)));
        if self.e[id].parent.is_some() {
            cx.count("op detach");
        }
        self.do_detach(rng, &e);
        self.m_detach(id);
        if rng.pct(60) {
            self.hold(e, id);
        }
        Ok(())
    }

    fn do_detach(&self, rng: &mut Rng, e: &SyntaxElement) {
        match e {
            NodeOrToken::Node(it) if rng.bool() => it.detach(),
            NodeOrToken::Token(it) if rng.bool() => it.detach(),
            it => it.detach(),
        }
    }

    fn op_splice(&mut self, cx: &mut Ctx, rng: &mut Rng, budget: usize) -> R {
        let nodes: Vec<usize> = self.all().into_iter().filter(|it| self.is_node(*it)).collect();
        if nodes.is_empty() {
            return Ok(());
        }
        let p = *rng.pick(&nodes);
        let n = self.node(rng, p)?;
        let len = self.e[p].kids.len();
        let (a, b) = match rng.below(6) {
            0 => (0, len),
            1 => (len, len),
            2 => {
                let a = rng.below(len + 1);
                (a, a)
            }
            _ => {
                let a = rng.below(len + 1);
                (a, rng.range(a, len))
            }
        };
        let deleted: Vec<usize> = self.e[p].kids[a..b].to_vec();
        // what to insert
        let mut ins: Vec<usize> = Vec::new();
        let mut els: Vec<SyntaxElement> = Vec::new();
        let size = self.all().len();
        for _ in 0..*rng.pick(&[0, 0, 1, 1, 1, 2, 3]) {
            if rng.pct(if size > budget * 3 { 20 } else { 45 }) {
                let t = match rng.below(3) {
                    0 => Arc::new(T::K(8, (*rng.pick(&["new", "", "日"])).into())),
                    1 => Arc::new(T::N(9, vec![])),
                    _ => rand_term(rng, 6),
                };
                els.push(fresh_mut(&t));
                ins.push(self.add(&t));
            } else {
                let cand: Vec<usize> = self.all().into_iter().filter(|it| !ins.contains(it) && !self.within(p, *it)).collect();
                // its own children are few among all there are
                let own: Vec<usize> = cand.iter().copied().filter(|it| self.e[*it].parent == Some(p)).collect();
                let cand = if rng.pct(25) && !own.is_empty() { own } else { cand };
                if !cand.is_empty() {
                    let id = *rng.pick(&cand);
                    els.push(self.get(rng, id)?);
                    ins.push(id);
                }
            }
        }
        // taking an earlier child out may leave too few for the position
        let mut kids: Vec<usize> = self.e[p].kids.iter().copied().filter(|it| !deleted.contains(it)).collect();
        for (k, id) in ins.clone().into_iter().enumerate() {
            if let Some(at) = kids.iter().position(|it| *it == id) {
                kids.remove(at);
                if at < a {
                    cx.count("moved to a later place");
                }
            }
            if a + k > kids.len() {
                ins.truncate(k);
                els.truncate(k);
                break;
            }
            kids.insert(a + k, id);
        }
        self.log.push(format!("splice {}..{} of {} with {:?}", a, b, self.show(p), ins.iter().map(|it| self.show(*it)).collect::<Vec<_>>()));
        cx.count("op splice");
        cx.add("spliced out", (b - a) as u64);
        cx.add("spliced in", ins.len() as u64);
        for it in &ins {
            if self.e[*it].parent.is_some() {
                cx.count("moved by splice");
            }
        }
        // keep handles to some of those that are removed
        for id in &deleted {
            if rng.pct(30) {
                let e = self.find(rng, *id)?;
                self.hold(e, *id);
            }
        }
        let keep: Vec<(SyntaxElement, usize)> = els.iter().zip(&ins).filter(|_| rng.pct(40)).map(|(e, id)| (e.clone(), *id)).collect();
        // some need their tree kept alive for `view`
        match rng.below(3) {
            0 => n.splice_children(a..b, els),
            1 => n.splice_children(a..b, els.iter().cloned()),
            _ => {
                let mut els = els.into_iter();
                n.splice_children(a..b, std::iter::from_fn(move || els.next()))
            }
        }
        for id in &deleted {
            self.m_detach(*id);
        }
        for (k, id) in ins.iter().enumerate() {
            self.m_attach(p, a + k, *id);
        }
        self.h.extend(keep);
        if !self.h.iter().any(|it| self.root_of(it.1) == self.root_of(p)) || rng.pct(20) {
            self.hold(el(&n), p);
        }
        Ok(())
    }

    /// Removes (and moves away) children while iterating over them.
    fn op_iterate(&mut self, cx: &mut Ctx, rng: &mut Rng) -> R {
        let nodes: Vec<usize> = self.all().into_iter().filter(|it| !self.e[*it].kids.is_empty()).collect();
        if nodes.is_empty() {
            return Ok(());
        }
        let mut p = *rng.pick(&nodes);
        for _ in 0..2 {
            let q = *rng.pick(&nodes);
            if self.e[q].kids.len() > self.e[p].kids.len() {
                p = q;
            }
        }
        let n = self.node(rng, p)?;
        self.hold(el(&n), p);
        let kids = self.e[p].kids.clone();
        let node_kids: Vec<usize> = kids.iter().copied().filter(|it| self.is_node(*it)).collect();
        // crowd
        for _ in 0..rng.below(4) {
            let id = *rng.pick(&kids);
            let e = self.find(rng, id)?;
            self.hold(e, id);
        }
        let mask = rng.u64();
        let kindset = move |k: u16| mask >> (mix(k as u64) & 63) & 1 == 1;
        let sel = |w: &World, v: &[usize]| -> Vec<usize> { v.iter().copied().filter(|it| kindset(w.e[*it].kind)).collect() };
        let style = rng.below(8);
        let (p_detach, mode) = (*rng.pick(&[100, 100, 50, 30]), rng.below(14));
        self.log.push(format!("iterate over {} (mode {}, style {}, {}%)", self.show(p), mode, style, p_detach));
        cx.count(&format!("op iterate {}", mode));
        let want: Vec<usize>;
        let res: R;
        match mode {
            0 | 1 => {
                want = node_kids.clone();
                let mut it = n.children();
                res = self.drive(cx, rng, p, p_detach, style, &want, &mut || it.next().map(Into::into));
            }
            2 | 3 => {
                want = kids.clone();
                let mut it = n.children_with_tokens();
                res = self.drive(cx, rng, p, p_detach, style, &want, &mut || it.next());
            }
            4 => {
                want = sel(self, &node_kids);
                let mut it = n.children().by_kind(|k| kindset(k.0));
                res = self.drive(cx, rng, p, p_detach, style, &want, &mut || it.next().map(Into::into));
            }
            5 => {
                want = sel(self, &kids);
                let mut it = n.children_with_tokens().by_kind(|k| kindset(k.0));
                res = self.drive(cx, rng, p, p_detach, style, &want, &mut || it.next());
            }
            6 => {
                // a few, and then only some kinds
                let k = rng.below(node_kids.len() + 1);
                let mut w = node_kids[..k].to_vec();
                w.extend(sel(self, &node_kids[k..]));
                want = w;
                let mut it = Some(n.children());
                let mut by = None;
                let mut i = 0;
                res = self.drive(cx, rng, p, p_detach, style, &want, &mut || {
                    i += 1;
                    if i <= k {
                        return it.as_mut().unwrap().next().map(Into::into);
                    }
                    let by = by.get_or_insert_with(|| it.take().unwrap().by_kind(|k| kindset(k.0)));
                    by.next().map(Into::into)
                });
            }
            7 => {
                let k = rng.below(kids.len() + 1);
                let mut w = kids[..k].to_vec();
                w.extend(sel(self, &kids[k..]));
                want = w;
                let mut it = Some(n.children_with_tokens());
                let mut by = None;
                let mut i = 0;
                res = self.drive(cx, rng, p, p_detach, style, &want, &mut || {
                    i += 1;
                    if i <= k {
                        return it.as_mut().unwrap().next();
                    }
                    let by = by.get_or_insert_with(|| it.take().unwrap().by_kind(|k| kindset(k.0)));
                    by.next()
                });
            }
            8 | 9 => {
                // siblings, with tokens
                let next = mode == 8;
                let i = rng.below(kids.len());
                let start = self.get(rng, kids[i])?;
                let mut w: Vec<usize> = if next { kids[i..].to_vec() } else { kids[..=i].to_vec() };
                if !next {
                    w.reverse();
                }
                want = w;
                let dir = if next { Direction::Next } else { Direction::Prev };
                match start {
                    NodeOrToken::Node(s) => {
                        let mut it = s.siblings_with_tokens(dir);
                        res = self.drive(cx, rng, p, p_detach, style, &want, &mut || it.next());
                    }
                    NodeOrToken::Token(s) => {
                        let mut it = s.siblings_with_tokens(dir);
                        res = self.drive(cx, rng, p, p_detach, style, &want, &mut || it.next());
                    }
                }
            }
            10 | 11 => {
                if node_kids.is_empty() {
                    return Ok(());
                }
                let next = mode == 10;
                let i = rng.below(node_kids.len());
                let start = self.get(rng, node_kids[i])?.into_node().ok_or("not a node")?;
                let mut w: Vec<usize> = if next { node_kids[i..].to_vec() } else { node_kids[..=i].to_vec() };
                if !next {
                    w.reverse();
                }
                want = w;
                let mut it = start.siblings(if next { Direction::Next } else { Direction::Prev });
                res = self.drive(cx, rng, p, p_detach, style, &want, &mut || it.next().map(Into::into));
            }
            12 => {
                // a whole range at once
                let a = rng.below(kids.len() + 1);
                let b = rng.range(a, kids.len());
                want = kids[a..b].to_vec();
                let keep = rng.bool();
                if keep {
                    for id in &want {
                        let e = self.find(rng, *id)?;
                        self.hold(e, *id);
                    }
                }
                n.splice_children(a..b, Vec::new());
                for id in &want {
                    self.m_detach(*id);
                }
                cx.add("detached while iterating", want.len() as u64);
                res = Ok(());
            }
            _ => {
                // collected first
                let v: Vec<SyntaxElement> = n.children_with_tokens().collect();
                let mut order: Vec<usize> = (0..v.len()).collect();
                rng.shuffle(&mut order);
                ckeq!(cx, v.len(), kids.len(), "number of collected children of {}", self.show(p));
                for i in order {
                    if rng.pct(p_detach) {
                        v[i].detach();
                        self.m_detach(kids[i]);
                    }
                    if rng.pct(30) {
                        self.hold(v[i].clone(), kids[i]);
                    }
                }
                res = Ok(());
            }
        }
        res
    }

    /// Pulls from `next` and checks that `want` comes out, detaching what was just delivered.
    #[allow(clippy::too_many_arguments)]
    fn drive(
        &mut self,
        cx: &mut Ctx,
        rng: &mut Rng,
        p: usize,
        p_detach: usize,
        style: usize,
        want: &[usize],
        next: &mut dyn FnMut() -> Option<SyntaxElement>,
    ) -> R {
        let stop = if rng.pct(10) { rng.below(want.len() + 1) } else { usize::MAX };
        let mut held = Vec::new();
        for (i, id) in want.iter().enumerate() {
            if i == stop {
                return Ok(());
            }
            let Some(e) = next() else {
                return Err(format!("iteration ended after {} of {} elements", i, want.len()));
            };
            cx.checks += 1;
            if !self.is(&e, *id)? {
                return Err(format!(
                    "delivery {} of the iteration is {}@{} {:?} instead of {}",
                    i,
                    e.kind().0,
                    e.index(),
                    crate::util::clip(&e.to_string(), 80),
                    self.show(*id)
                ));
            }
            cx.count("delivered");
            if rng.pct(p_detach) {
                cx.count("detached while iterating");
                e.detach();
                self.m_detach(*id);
                if style >= 5 && rng.pct(50) {
                    // goes elsewhere
                    let cand: Vec<usize> = self.all().into_iter().filter(|it| self.is_node(*it) && *it != p && !self.within(*it, *id)).collect();
                    if !cand.is_empty() {
                        let q = *rng.pick(&cand);
                        let at = rng.below(self.e[q].kids.len() + 1);
                        self.node(rng, q)?.splice_children(at..at, Some(e.clone()));
                        self.m_attach(q, at, *id);
                        cx.count("moved while iterating");
                    }
                }
            }
            match style {
                0 | 5 => drop(e),
                1 | 6 => held.push((e, *id)),
                _ => {
                    if rng.bool() {
                        held.push((e, *id));
                    }
                }
            }
            if style == 3 && !held.is_empty() && rng.bool() {
                held.swap_remove(rng.below(held.len()));
            }
        }
        if stop >= want.len() {
            cx.checks += 1;
            if let Some(e) = next() {
                return Err(format!("the iteration goes on after its {} elements with {}@{}", want.len(), e.kind().0, e.index()));
            }
        }
        self.h.extend(held);
        Ok(())
    }

    /// Is this a handle to `id`?
    fn is(&self, e: &SyntaxElement, id: usize) -> R<bool> {
        if e.as_node().is_some() != self.is_node(id) || e.kind().0 != self.e[id].kind {
            return Ok(false);
        }
        // climb
        let mut cur = e.clone();
        let mut m = id;
        loop {
            match (cur.parent(), self.e[m].parent) {
                (None, None) => break,
                (Some(p), Some(q)) => {
                    if cur.index() != self.index(m) {
                        return Ok(false);
                    }
                    cur = el(&p);
                    m = q;
                }
                _ => return Ok(false),
            }
        }
        // and is it the right tree?
        for (h, hid) in &self.h {
            if self.root_of(*hid) == m && *hid != id {
                let mut top = h.clone();
                while let Some(p) = top.parent() {
                    top = el(&p);
                }
                return Ok(top == cur);
            }
        }
        Ok(true)
    }

    fn op_snapshot(&mut self, cx: &mut Ctx, rng: &mut Rng) -> R {
        let all = self.all();
        let id = *rng.pick(&all);
        let e = self.get(rng, id)?;
        let t = self.term(id, &mut Vec::new());
        let blind = self.focus == Focus::Blind;
        match e {
            NodeOrToken::Token(tok) => {
                let g = tok.green().to_owned();
                if !blind {
                    ckeq!(cx, g.text(), tok.text(), "text of a green token");
                }
                let s = self.e[id].text.clone().unwrap();
                self.snaps.push(Snap::Token(g, self.e[id].kind, s));
                cx.count("op snapshot token");
            }
            NodeOrToken::Node(n) => match rng.below(4) {
                0 => {
                    let g = n.green().into_owned();
                    self.log.push(format!("green of {}", t.show()));
                    self.snaps.push(Snap::Green(g, t));
                    cx.count("op snapshot green");
                }
                1 => {
                    let s = n.clone_subtree();
                    self.log.push(format!("clone_subtree of {}", t.show()));
                    if !blind {
                        ck!(cx, !s.is_mutable(), "a subtree copy is mutable");
                        ck!(cx, s.parent().is_none(), "a subtree copy has a parent");
                        ckeq!(cx, s.text_range(), rowan::TextRange::new(ts(0), ts(t.len())), "range of a subtree copy");
                        same_tree(&s, &t).map_err(|e| format!("subtree copy: {}", e))?;
                    }
                    let flat = Flat::new(&t);
                    let at = rng.below(flat.n());
                    let tree = Tree { root: s, flat, term: t.clone(), flavor: "", keep: vec![], other: vec![] };
                    let x = tree.at(at)?;
                    if rng.bool() {
                        if let NodeOrToken::Node(x) = &x {
                            self.snaps.push(Snap::Text(x.text(), tree.flat.text_of(at)));
                        }
                    }
                    self.snaps.push(Snap::Imm(x, t, at));
                    cx.count("op snapshot subtree");
                }
                2 => {
                    // the tree with this node replaced, the tree itself unaffected
                    let T::N(k, _) = &*t else { unreachable!() };
                    let new = Arc::new(T::N(*k, vec![rand_term(rng, 4)]));
                    let g = n.replace_with(crate::build::node_of(&new));
                    let mut ids = Vec::new();
                    let whole = self.term(self.root_of(id), &mut ids);
                    let f = Flat::new(&whole);
                    let path = f.path(ids.iter().position(|it| *it == id).unwrap());
                    let want = crate::green::edit_at(&whole, &path, &mut |_| (*new).clone());
                    if !blind {
                        same_green(&g, &want).map_err(|e| format!("replace_with in a mutable tree: {}", e))?;
                    }
                    self.snaps.push(Snap::Green(g, want));
                    cx.count("op replace_with");
                }
                _ => {
                    // a second mutable tree over the same green tree
                    let g = n.green().into_owned();
                    self.log.push(format!("new_root_mut from the green of {}", t.show()));
                    let m = SyntaxNode::new_root_mut(g);
                    let id = self.add(&t);
                    self.hold(el(&m), id);
                    cx.count("op second tree");
                }
            },
        }
        Ok(())
    }

    /// Goes on from something that was put aside.
    fn op_resume(&mut self, cx: &mut Ctx, rng: &mut Rng) -> R {
        if self.snaps.is_empty() {
            return Ok(());
        }
        let i = rng.below(self.snaps.len());
        match &self.snaps[i] {
            Snap::Green(g, t) => {
                let (g, t) = (g.clone(), t.clone());
                self.log.push(format!("new_root_mut from snapshot {}", t.show()));
                let m = SyntaxNode::new_root_mut(g);
                let id = self.add(&t);
                self.hold(el(&m), id);
                cx.count("op resume green");
            }
            Snap::Imm(e, t, at) => {
                let (e, t, at) = (e.clone(), t.clone(), *at);
                let (n, at) = match &e {
                    NodeOrToken::Node(n) => (n.clone(), at),
                    NodeOrToken::Token(k) => {
                        let f = Flat::new(&t);
                        (k.parent().ok_or("a token without parent")?, f.parent(at).unwrap())
                    }
                };
                self.clone_node(cx, rng, &n, &t, at)?;
            }
            _ => {
                self.snaps.swap_remove(i);
            }
        }
        if rng.pct(30) && i < self.snaps.len() {
            self.snaps.swap_remove(i);
        }
        Ok(())
    }

    /// The cache still builds what it is told to, whatever happened to trees built through it.
    fn op_cache(&mut self, cx: &mut Ctx, rng: &mut Rng) -> R {
        let roots: Vec<usize> = self.roots().into_iter().filter(|it| self.is_node(*it)).collect();
        if roots.is_empty() {
            return Ok(());
        }
        let t = self.term(*rng.pick(&roots), &mut Vec::new());
        let g = {
            let mut b = rowan::GreenNodeBuilder::with_cache(&mut self.cache);
            crate::build::emit(&t, &mut b);
            b.finish()
        };
        if self.focus != Focus::Blind {
            same_green(&g, &t).map_err(|e| format!("built from the cache: {}", e))?;
        }
        cx.count("op cache");
        self.snaps.push(Snap::Green(g, t));
        Ok(())
    }

    // ---- requests that are to be refused

    /// Do trees and handles agree with the model?
    fn consistent(&self) -> bool {
        self.roots().into_iter().all(|r| {
            let Ok(v) = self.view(r) else { return false };
            let Some(t) = &v.tree else { return true };
            same_tree(&t.root, &t.term).is_ok() && self.h.iter().filter(|it| self.root_of(it.1) == r).all(|(h, id)| t.locate(h).ok() == Some(v.pos[id]))
        })
    }

    fn refused<X>(&self, cx: &mut Ctx, what: &str, f: impl FnOnce() -> X) -> R {
        let r = crate::util::catch(f);
        cx.count(&format!("refused: {}", what));
        if self.focus != Focus::Blind {
            ck!(cx, r.is_err(), "not refused: {}", what);
        }
        Ok(())
    }

    /// What an operation that was refused or interrupted left behind: one of these.
    fn settle(&mut self, cx: &mut Ctx, what: &str, cands: Vec<Vec<El>>) -> R {
        let n = cands.len();
        for c in cands {
            self.e = c;
            if self.consistent() {
                cx.checks += 1;
                return Ok(());
            }
        }
        // let `verify` find out what is wrong
        let mut cx2 = Ctx::new(false, false);
        let mut rng = Rng::new(1);
        let r = self.roots().into_iter().try_for_each(|r| self.check_tree(&mut cx2, r).map(|_| ()));
        Err(format!("after {}: none of {} possible states matches ({})", what, n, r.err().unwrap_or_else(|| format!("handles are off {}", rng.u64() & 1))))
    }

    pub fn op_misuse(&mut self, cx: &mut Ctx, rng: &mut Rng) -> R {
        let all = self.all();
        let nodes: Vec<usize> = all.iter().copied().filter(|it| self.is_node(*it)).collect();
        let toks: Vec<usize> = all.iter().copied().filter(|it| !self.is_node(*it)).collect();
        if nodes.is_empty() {
            return Ok(());
        }
        let p = *rng.pick(&nodes);
        let len = self.e[p].kids.len();
        let n = self.node(rng, p)?;
        self.hold(el(&n), p);
        let base = self.e.clone();
        let which = rng.below(14);
        self.log.push(format!("misuse {} of {}", which, self.show(p)));
        match which {
            0 | 1 | 2 | 3 => {
                // a splice where one of the inserted elements is impossible, or the iterator panics
                let (a, b) = if rng.bool() {
                    (rng.below(len + 1), None)
                } else {
                    let a = rng.below(len + 1);
                    (a, Some(rng.range(a, len)))
                };
                let b = b.unwrap_or(a);
                let mut els = Vec::new();
                let mut ids = Vec::new();
                for _ in 0..rng.below(3) {
                    let t = if rng.bool() { Arc::new(T::K(8, "ok".into())) } else { rand_term(rng, 4) };
                    let e = fresh_mut(&t);
                    let id = self.add(&t);
                    self.hold(e.clone(), id);
                    els.push(e);
                    ids.push(id);
                }
                let base = self.e.clone();
                let good = els.len();
                let mut moved = None;
                let what = match which {
                    0 => {
                        // itself or an ancestor
                        let mut anc = vec![p];
                        while let Some(q) = self.e[*anc.last().unwrap()].parent {
                            anc.push(q);
                        }
                        let bad = *rng.pick(&anc);
                        els.push(self.get(rng, bad)?);
                        moved = Some(bad);
                        "attaching an element below itself"
                    }
                    1 => {
                        let t = rand_term(rng, 4);
                        let imm = SyntaxNode::new_root(build(rng, &t, None).0);
                        let x = imm.descendants_with_tokens().nth(rng.below(t.count())).unwrap();
                        els.push(x);
                        "attaching an element of an immutable tree"
                    }
                    2 => {
                        // past the end: nothing fits
                        let t = if rng.bool() { Arc::new(T::K(8, "far".into())) } else { rand_term(rng, 4) };
                        let far = len + 1 + rng.below(4);
                        let (e, id) = if rng.bool() || toks.is_empty() {
                            let e = fresh_mut(&t);
                            let id = self.add(&t);
                            self.hold(e.clone(), id);
                            (e, id)
                        } else {
                            let id = *rng.pick(&toks);
                            let e = self.get(rng, id)?;
                            self.hold(e.clone(), id);
                            (e, id)
                        };
                        // a token taken from the same parent leaves even less room
                        self.refused(cx, "insertion past the end", || n.splice_children(far..far, Some(e)))?;
                        let c1 = self.e.clone();
                        self.m_detach(id);
                        let c2 = self.e.clone();
                        return self.settle(cx, "an insertion past the end", vec![c1, c2]);
                    }
                    _ => "a panicking iterator",
                };
                if rng.bool() && which < 2 {
                    els.push(fresh_mut(&T::K(8, "late".into())));
                }
                let mut i = 0;
                let mut els = els.into_iter();
                self.refused(cx, what, || {
                    n.splice_children(
                        a..b,
                        std::iter::from_fn(|| {
                            if which == 3 && i == good {
                                panic!("interrupted");
                            }
                            i += 1;
                            els.next()
                        }),
                    )
                })?;
                drop(els);
                let mut cands = Vec::new();
                // some elements attached, with or without the deletion
                for done in (0..=good).rev() {
                    for del in [true, false] {
                        for det in [false, true] {
                            self.e = base.clone();
                            if del {
                                for id in base[p].kids[a..b].to_vec() {
                                    self.m_detach(id);
                                }
                            }
                            for (k, id) in ids[..done].iter().enumerate() {
                                self.m_attach(p, a + k, *id);
                            }
                            if det {
                                match moved {
                                    Some(m) => self.m_detach(m),
                                    None => continue,
                                }
                            }
                            cands.push(self.e.clone());
                        }
                    }
                }
                self.settle(cx, what, cands)
            }
            4 => {
                self.refused(cx, "clone_for_update of a mutable tree", || n.clone_for_update())?;
                self.settle(cx, "clone_for_update", vec![base])
            }
            5 => {
                let other = rowan::SyntaxKind(self.e[p].kind ^ (1 << rng.below(16)));
                let g = GreenNode::new(other, Vec::new());
                self.refused(cx, "replacement of a node by another kind", || n.replace_with(g))?;
                if let Some(k) = (!toks.is_empty()).then(|| *rng.pick(&toks)) {
                    let e = self.get(rng, k)?;
                    let other = rowan::SyntaxKind(self.e[k].kind ^ (1 << rng.below(16)));
                    self.refused(cx, "replacement of a token by another kind", || e.as_token().unwrap().replace_with(GreenToken::new(other, "x")))?;
                    if self.e[k].parent.is_none() {
                        let same = rowan::SyntaxKind(self.e[k].kind);
                        self.refused(cx, "replacement of a token that is not in a tree", || e.as_token().unwrap().replace_with(GreenToken::new(same, "x")))?;
                    }
                }
                self.settle(cx, "replace_with", vec![base])
            }
            6 => {
                let r = n.text_range();
                let past = r.end() + ts(1 + rng.below(3) as u64);
                self.refused(cx, "token_at_offset out of range", || n.token_at_offset(past))?;
                self.refused(cx, "covering_element out of range", || n.covering_element(rowan::TextRange::new(r.end(), past)))?;
                self.refused(cx, "covering_element out of range", || n.covering_element(rowan::TextRange::new(r.start(), past)))?;
                if r.start() > ts(0) {
                    let before = r.start() - ts(1);
                    self.refused(cx, "token_at_offset out of range", || n.token_at_offset(before))?;
                    self.refused(cx, "covering_element out of range", || n.covering_element(rowan::TextRange::new(before, r.start())))?;
                }
                let t = n.text();
                let l = u64::from(u32::from(t.len()));
                self.refused(cx, "slice out of bounds", || t.slice(ts(0)..ts(l + 1)))?;
                self.refused(cx, "slice out of bounds", || t.slice(ts(l + 1)..))?;
                self.refused(cx, "slice out of bounds", || t.slice(..ts(l + 3)))?;
                if l > 0 {
                    self.refused(cx, "slice that ends before it starts", || t.slice(ts(l)..ts(l - 1)))?;
                    let m = rng.below(l as usize) as u64;
                    let s = t.slice(ts(m)..ts(m));
                    self.refused(cx, "slice out of bounds", || s.slice(..ts(1)))?;
                }
                drop(t);
                self.settle(cx, "lookups", vec![base])
            }
            7 => {
                // matchers that panic
                let k = std::cell::Cell::new(rng.below(len + 1));
                let m = |_: rowan::SyntaxKind| {
                    if k.get() == 0 {
                        panic!("matcher");
                    }
                    k.set(k.get() - 1);
                    false
                };
                let _ = crate::util::catch(|| n.first_child_by_kind(&m));
                let _ = crate::util::catch(|| n.first_child_or_token_by_kind(&m));
                let _ = crate::util::catch(|| n.children().by_kind(m).count());
                let _ = crate::util::catch(|| n.children_with_tokens().by_kind(m).count());
                if let Some(c) = n.first_child_or_token() {
                    let _ = crate::util::catch(|| c.next_sibling_or_token_by_kind(&m));
                }
                let mut it = n.children_with_tokens();
                it.next();
                let _ = crate::util::catch(|| it.by_kind(m).count());
                cx.count("panicking matchers");
                self.settle(cx, "panicking matchers", vec![base])
            }
            8 => {
                let t = n.text();
                let mut k = rng.below(4);
                let _ = crate::util::catch(|| {
                    t.for_each_chunk(|_| {
                        if k == 0 {
                            panic!("chunk");
                        }
                        k -= 1;
                    })
                });
                cx.count("panicking chunk callbacks");
                drop(t);
                self.settle(cx, "a panicking chunk callback", vec![base])
            }
            9 => {
                let t = api_node(&n);
                self.refused(cx, "pointer to a node of a mutable tree", || rowan::ast::SyntaxNodePtr::new(&t))?;
                let imm = api_node(&n.clone_subtree());
                let ptr = rowan::ast::SyntaxNodePtr::new(&imm);
                self.refused(cx, "resolving a pointer in a mutable tree", || ptr.try_to_node(&t))?;
                self.refused(cx, "resolving a pointer in a mutable tree", || ptr.to_node(&t))?;
                drop(t);
                self.settle(cx, "node pointers", vec![base])
            }
            10 => {
                // the green tree below
                let g = n.green().into_owned();
                let tok: crate::build::GreenEl = NodeOrToken::Token(GreenToken::new(rowan::SyntaxKind(1), "t"));
                self.refused(cx, "green insertion past the end", || g.insert_child(len + 1, tok.clone()))?;
                self.refused(cx, "green removal past the end", || g.remove_child(len))?;
                self.refused(cx, "green splice past the end", || g.splice_children(len..len + 1, None))?;
                self.refused(cx, "green splice past the end", || g.splice_children(len + 1.., Some(tok.clone())))?;
                if self.focus != Focus::Blind {
                    same_green(&g, &self.term(p, &mut Vec::new()))?;
                }
                drop(g);
                self.settle(cx, "green edits", vec![base])
            }
            _ => {
                // edits of immutable trees
                let imm = match self.snaps.iter().find_map(|it| match it {
                    Snap::Imm(e, ..) => Some(e.clone()),
                    _ => None,
                }) {
                    Some(e) if rng.bool() => e,
                    _ => {
                        let t = self.term(p, &mut Vec::new());
                        let r = n.clone_subtree();
                        let at = rng.below(t.count());
                        let e = r.descendants_with_tokens().nth(at).ok_or("too few elements")?;
                        self.snaps.push(Snap::Imm(e.clone(), t, at));
                        e
                    }
                };
                self.refused(cx, "detaching from an immutable tree", || imm.detach())?;
                match &imm {
                    NodeOrToken::Node(x) => {
                        self.refused(cx, "detaching from an immutable tree", || x.detach())?;
                        self.refused(cx, "splicing an immutable tree", || x.splice_children(0..0, Vec::new()))?;
                        let k = x.green().children().len();
                        self.refused(cx, "splicing an immutable tree", || x.splice_children(0..k, Vec::new()))?;
                        let e = fresh_mut(&T::K(3, "x".into()));
                        let e2 = e.clone();
                        self.refused(cx, "splicing an immutable tree", || x.splice_children(0..0, Some(e2)))?;
                        // an element of its own as well
                        if let Some(c) = x.first_child_or_token() {
                            self.refused(cx, "splicing an immutable tree", || x.splice_children(0..1, Some(c)))?;
                        }
                        if self.focus != Focus::Blind {
                            ckeq!(cx, e.to_string(), "x", "an element that could not be attached");
                        }
                        let y = imm.clone();
                        self.refused(cx, "attaching an element of an immutable tree", || n.splice_children(0..0, Some(y)))?;
                    }
                    NodeOrToken::Token(x) => {
                        self.refused(cx, "detaching from an immutable tree", || x.detach())?;
                        let y = imm.clone();
                        self.refused(cx, "attaching an element of an immutable tree", || n.splice_children(len..len, Some(y)))?;
                    }
                }
                if self.focus != Focus::Blind {
                    self.check_snaps(cx)?;
                }
                self.settle(cx, "edits of an immutable tree", vec![base])
            }
        }
    }

    // ---- verification

    fn check_tree(&self, cx: &mut Ctx, root: usize) -> R<View> {
        let v = self.view(root)?;
        let Some(t) = &v.tree else {
            let h = self.h.iter().find(|it| it.1 == root).ok_or("no handle to the token")?;
            let tok = h.0.as_token().ok_or("a node where a token is expected")?;
            ckeq!(cx, tok.text(), &**self.e[root].text.as_ref().unwrap(), "text of a lone token");
            ck!(cx, tok.parent().is_none(), "a lone token has a parent");
            return Ok(v);
        };
        same_tree(&t.root, &t.term).map_err(|e| format!("tree {}: {}", t.term.show(), e))?;
        let f = &t.flat;
        ck!(cx, t.root.is_mutable(), "the tree is not mutable any more");
        let g = t.root.green();
        same_green(&g, &t.term).map_err(|e| format!("green tree of {}: {}", t.term.show(), e))?;
        ckeq!(cx, t.root.to_string(), t.term.text(), "text");
        ckeq!(cx, u32::from(t.root.text().len()) as u64, f.len[0], "length of the text");
        let mut n = 0;
        for (i, e) in t.root.descendants_with_tokens().enumerate() {
            ck!(cx, i < f.n(), "a walk over {} finds too much", t.term.show());
            ckeq!(cx, e.text_range(), rng_of(f, i), "range of element {} of {}", i, t.term.show());
            if i > 0 {
                ckeq!(cx, e.index(), f.idx[i] as usize, "index of element {} of {}", i, t.term.show());
            }
            n += 1;
        }
        ckeq!(cx, n, f.n(), "number of elements of {}", t.term.show());
        Ok(v)
    }

    fn check_handle(&self, cx: &mut Ctx, rng: &mut Rng, v: &View, h: &SyntaxElement, id: usize) -> R {
        let me = || format!("kept handle to {}", self.show(id));
        ckeq!(cx, h.kind().0, self.e[id].kind, "kind of a {}", me());
        ckeq!(cx, h.as_node().is_some(), self.is_node(id), "sort of a {}", me());
        let Some(t) = &v.tree else {
            let tok = h.as_token().unwrap();
            ckeq!(cx, tok.text_range(), rowan::TextRange::new(ts(0), ts(self.e[id].text.as_ref().unwrap().len() as u64)), "range of a {}", me());
            ck!(cx, tok.next_sibling_or_token().is_none() && tok.prev_sibling_or_token().is_none(), "a lone token has siblings");
            ck!(cx, tok.ancestors().next().is_none(), "a lone token has ancestors");
            return Ok(());
        };
        let f = &t.flat;
        let at = v.pos[&id];
        ckeq!(cx, t.locate(h)?, at, "place of a {} in {}", me(), t.term.show());
        ckeq!(cx, h.text_range(), rng_of(f, at), "range of a {} in {}", me(), t.term.show());
        if let NodeOrToken::Token(k) = h {
            ckeq!(cx, k.text(), &**self.e[id].text.as_ref().unwrap(), "text of a {}", me());
            ckeq!(cx, k.green().text(), &**self.e[id].text.as_ref().unwrap(), "green text of a {}", me());
        } else if let NodeOrToken::Node(n) = h {
            ckeq!(cx, n.to_string(), f.text_of(at), "text of a {}", me());
            same_tree(n, &f.term(at)).map_err(|e| format!("below a {}: {}", me(), e))?;
            same_green(&n.green(), &f.term(at)).map_err(|e| format!("green tree of a {}: {}", me(), e))?;
            ck!(cx, n.is_mutable(), "a {} is not mutable any more", me());
        }
        if at > 0 {
            ckeq!(cx, h.index(), f.idx[at] as usize, "index of a {}", me());
        }
        let anc: Vec<usize> = h.ancestors().map(|it| t.locate(&el(&it))).collect::<R<_>>()?;
        let want: Vec<usize> = f.ancestors(at).into_iter().filter(|it| f.is_node(*it)).collect();
        ckeq!(cx, anc, want, "ancestors of a {} in {}", me(), t.term.show());
        let sib = |e: Option<SyntaxElement>| e.map(|it| t.locate(&it)).transpose();
        let (n, p) = match f.parent(at) {
            Some(p) => {
                let i = f.idx[at] as usize;
                (f.kid(p, i + 1), i.checked_sub(1).and_then(|i| f.kid(p, i)))
            }
            None => (None, None),
        };
        ckeq!(cx, sib(h.next_sibling_or_token())?, n, "next sibling of a {} in {}", me(), t.term.show());
        ckeq!(cx, sib(h.prev_sibling_or_token())?, p, "previous sibling of a {} in {}", me(), t.term.show());
        // reached again
        let again = t.reach(rng, at)?;
        ck!(cx, again == *h && *h == again, "reached again, a {} is not equal to it", me());
        ckeq!(cx, hash_of(&again), hash_of(h), "hash of a {}", me());
        if let (NodeOrToken::Node(a), NodeOrToken::Node(b)) = (&again, h) {
            // children seen through one are the children seen through the other
            let i = f.kids[at].len();
            if i > 0 {
                let i = rng.below(i);
                let (x, y) = (child_at(a, i), child_at(b, i));
                ck!(cx, x == y && x.is_some(), "child {} seen through two handles differs", i);
            }
        }
        Ok(())
    }

    fn check_pairs(&self, cx: &mut Ctx, v: &View, hs: &[&(SyntaxElement, usize)]) -> R {
        let Some(t) = &v.tree else { return Ok(()) };
        for (i, (a, x)) in hs.iter().enumerate() {
            for (b, y) in &hs[i..] {
                if x == y {
                    ck!(cx, a == b && b == a && hash_of(a) == hash_of(b), "two handles to {} differ", self.show(*x));
                } else if t.flat.len[v.pos[x]] > 0 || t.flat.len[v.pos[y]] > 0 {
                    ck!(cx, a != b && b != a, "handles to {} and {} in {} are equal", self.show(*x), self.show(*y), t.term.show());
                } else {
                    let e = a == b;
                    ckeq!(cx, b == a, e, "symmetry");
                    ck!(cx, !e || hash_of(a) == hash_of(b), "equal but different hash");
                }
            }
        }
        Ok(())
    }

    fn check_snaps(&self, cx: &mut Ctx) -> R {
        for s in &self.snaps {
            match s {
                Snap::Green(g, t) => same_green(g, t).map_err(|e| format!("green tree taken earlier, {}: {}", t.show(), e))?,
                Snap::Token(g, k, s) => {
                    ck!(cx, g.kind().0 == *k && g.text() == &**s, "green token taken earlier changed to {:?}", g.text())
                }
                Snap::Text(text, s) => {
                    ck!(cx, *text == **s, "text taken earlier changed from {:?} to {:?}", s, text.to_string())
                }
                Snap::Imm(e, t, at) => {
                    let f = Flat::new(t);
                    let root = e.ancestors().last().ok_or("no ancestors")?;
                    ck!(cx, !root.is_mutable(), "an immutable tree became mutable");
                    same_tree(&root, t).map_err(|e| format!("immutable tree {}: {}", t.show(), e))?;
                    same_green(&root.green(), t).map_err(|e| format!("immutable tree {}: {}", t.show(), e))?;
                    ckeq!(cx, locate_in(&root, &f, e)?, *at, "place in the immutable tree {}", t.show());
                    ckeq!(cx, e.text_range(), rng_of(&f, *at), "range in the immutable tree {}", t.show());
                    ckeq!(cx, root.text_range(), rng_of(&f, 0), "range of the immutable tree {}", t.show());
                }
            }
            cx.count("snapshots checked");
        }
        Ok(())
    }

    pub fn verify(&self, cx: &mut Ctx, rng: &mut Rng) -> R {
        if self.focus == Focus::Blind {
            return Ok(());
        }
        let mut roots = self.roots();
        if rng.bool() {
            rng.shuffle(&mut roots);
        }
        let deep = matches!(self.focus, Focus::Handles | Focus::Ident | Focus::Misuse);
        for r in roots {
            let v = self.check_tree(cx, r)?;
            let hs: Vec<&(SyntaxElement, usize)> = self.h.iter().filter(|it| self.root_of(it.1) == r).collect();
            if deep || rng.pct(30) {
                for (h, id) in &hs {
                    self.check_handle(cx, rng, &v, h, *id)?;
                    cx.count("handles checked");
                }
            }
            if self.focus == Focus::Ident || rng.pct(10) {
                self.check_pairs(cx, &v, &hs)?;
                cx.count("pairs checked");
            }
            cx.count("trees checked");
        }
        if self.focus == Focus::Copies || rng.pct(20) {
            self.check_snaps(cx)?;
        }
        Ok(())
    }

    pub fn step(&mut self, cx: &mut Ctx, rng: &mut Rng, budget: usize) -> R {
        let elements: usize = self.all().len();
        if !self.h.is_empty() && (self.focus == Focus::Misuse && rng.pct(50) || self.focus == Focus::Blind && rng.pct(12)) {
            return self.op_misuse(cx, rng);
        }
        if self.h.is_empty() || (elements < 4 && rng.bool()) {
            return self.op_new(cx, rng, budget);
        }
        let w: [usize; 8] = match self.focus {
            //           new hold drop det spl iter snap resume
            Focus::Edit => [4, 12, 12, 20, 36, 8, 4, 2],
            Focus::Handles => [3, 30, 10, 20, 28, 6, 2, 1],
            Focus::Copies => [4, 8, 10, 14, 22, 6, 18, 14],
            Focus::Iter => [8, 12, 12, 4, 14, 46, 2, 2],
            Focus::Ident => [3, 28, 10, 18, 26, 6, 4, 2],
            Focus::Misuse => [4, 10, 8, 6, 12, 4, 10, 4],
            Focus::Blind => [6, 16, 16, 14, 22, 14, 8, 4],
        };
        let mut x = rng.below(w.iter().sum());
        let mut op = 0;
        while x >= w[op] {
            x -= w[op];
            op += 1;
        }
        cx.sig(op as u64);
        match op {
            0 if elements < budget * 4 => self.op_new(cx, rng, budget),
            1 if self.h.len() < 40 => self.op_hold(cx, rng),
            0 | 1 | 2 => {
                self.op_drop(cx, rng);
                Ok(())
            }
            3 => self.op_detach(cx, rng),
            4 => self.op_splice(cx, rng, budget),
            5 => self.op_iterate(cx, rng),
            6 if self.snaps.len() < 20 => {
                if self.focus == Focus::Copies && rng.pct(15) {
                    self.op_cache(cx, rng)
                } else {
                    self.op_snapshot(cx, rng)
                }
            }
            6 => {
                let i = rng.below(self.snaps.len());
                self.snaps.swap_remove(i);
                Ok(())
            }
            _ => self.op_resume(cx, rng),
        }
    }

    /// Drops everything, in random order.
    pub fn finish(mut self, rng: &mut Rng) {
        rng.shuffle(&mut self.h);
        rng.shuffle(&mut self.snaps);
        while !self.h.is_empty() || !self.snaps.is_empty() {
            if rng.bool() {
                self.h.pop();
            } else {
                self.snaps.pop();
            }
        }
    }
}

fn api_node(n: &SyntaxNode) -> rowan::SyntaxNode<crate::text::Odd> {
    n.clone().into()
}

pub fn history(cx: &mut Ctx, rng: &mut Rng, focus: Focus) -> R {
    let mut w = World::new(focus);
    let (budget, ops) = if cx.tiny {
        (8, rng.range(3, 8))
    } else {
        let b = if rng.pct(1) { 400 } else { *rng.pick(&[6, 12, 25, 40, 80]) };
        (b, if b >= 40 { rng.range(5, 25) } else { rng.range(5, 60) })
    };
    w.op_new(cx, rng, budget)?;
    let every = *rng.pick(&[1, 1, 1, 4]);
    for i in 0..ops {
        let before = w.log.len();
        let r = w.step(cx, rng, budget).and_then(|_| if i % every == 0 || i + 1 == ops { w.verify(cx, rng) } else { Ok(()) });
        for l in &w.log[before..] {
            cx.sig(l.bytes().fold(0, |h, b| h.wrapping_mul(31).wrapping_add(b as u64)));
        }
        if let Err(e) = r {
            let n = w.log.len();
            let tail = w.log[n.saturating_sub(12)..].join("\n    ");
            std::mem::forget(w);
            return Err(format!("{}\n  after {} operations, the last ones:\n    {}", e, i + 1, tail));
        }
        cx.count("operations");
    }
    cx.desc(|| w.log.join(", "));
    if rng.bool() {
        w.finish(rng);
    }
    Ok(())
}

pub fn c12(cx: &mut Ctx, rng: &mut Rng) -> R {
    history(cx, rng, Focus::Edit)
}
pub fn c13(cx: &mut Ctx, rng: &mut Rng) -> R {
    history(cx, rng, Focus::Handles)
}
pub fn c14(cx: &mut Ctx, rng: &mut Rng) -> R {
    history(cx, rng, Focus::Copies)
}
pub fn c15(cx: &mut Ctx, rng: &mut Rng) -> R {
    history(cx, rng, Focus::Iter)
}
pub fn c19_history(cx: &mut Ctx, rng: &mut Rng) -> R {
    history(cx, rng, Focus::Misuse)
}
pub fn c11_mut(cx: &mut Ctx, rng: &mut Rng) -> R {
    history(cx, rng, Focus::Ident)
}
