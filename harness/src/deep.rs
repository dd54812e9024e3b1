//! Paths deeper than eight bits can count.
use std::sync::Arc;

use rowan::{
    api,
    ast::SyntaxNodePtr,
    cursor::{SyntaxElement, SyntaxNode},
    GreenNode, GreenToken, NodeOrToken, TextRange,
};

use crate::{
    build::{node_of, sk},
    ck, ckeq, misc, nav,
    rng::Rng,
    term::{Flat, T},
    text::{self, Odd, Raw, View},
    tree::{el, fresh_mut, same_tree, ts, Tree},
    util::{catch, Ctx, R},
};

fn depth(cx: &mut Ctx, rng: &mut Rng) -> usize {
    let d = if cx.tiny { 6 + rng.below(6) } else { 280 + rng.below(500) };
    cx.sig(d as u64 + 77);
    cx.count("deep paths");
    cx.desc(|| format!("a path of {} nodes", d));
    d
}

/// A path of `d` nodes with tokens and empty nodes on either side; the texts differ.
fn term(rng: &mut Rng, d: usize) -> Arc<T> {
    let mut t = Arc::new(T::K(9, "leaf".into()));
    let p = *rng.pick(&[5, 50, 100]);
    for i in (0..d).rev() {
        let mut kids = Vec::new();
        for _ in 0..2 {
            if rng.pct(p) {
                kids.push(Arc::new(T::K(20, format!("{}<", i).into())));
            }
        }
        if rng.pct(p / 4) {
            kids.push(Arc::new(T::N(21, vec![])));
        }
        kids.push(t);
        if rng.pct(p) {
            kids.push(Arc::new(T::K(22, format!(">{}é", i).into())));
        }
        t = Arc::new(T::N((i % 300) as u16, kids));
    }
    t
}

fn trees(cx: &mut Ctx, rng: &mut Rng) -> [Tree; 2] {
    let d = depth(cx, rng);
    let term = term(rng, d);
    let g = node_of(&term);
    let mk = |root: SyntaxNode, flavor| Tree { root, flat: Flat::new(&term), term: term.clone(), flavor, keep: vec![], other: vec![] };
    [mk(SyntaxNode::new_root(g.clone()), "immutable"), mk(SyntaxNode::new_root_mut(g), "mutable")]
}

/// The nodes of the path, outermost first.
fn spine(f: &Flat) -> Vec<usize> {
    let mut v = vec![0];
    while let Some(k) = f.kids[*v.last().unwrap()].iter().find(|it| f.is_node(**it as usize) && !f.kids[**it as usize].is_empty()) {
        v.push(*k as usize);
    }
    v
}

fn depths(rng: &mut Rng, n: usize, more: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 1, 2, 126, 127, 128, 254, 255, 256, 257, 258, 511, 512].into_iter().filter(|it| *it < n).collect();
    v.extend([n - 1, n - 2]);
    v.extend((0..more).map(|_| rng.below(n)));
    v.sort_unstable();
    v.dedup();
    v
}

/// The spine nodes worth a look, with everything that hangs off them.
fn elements(rng: &mut Rng, f: &Flat, more: usize) -> Vec<usize> {
    let s = spine(f);
    let mut v = vec![];
    for d in depths(rng, s.len(), more) {
        v.push(s[d]);
        v.extend(f.kids[s[d]].iter().map(|it| *it as usize));
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub fn c04(cx: &mut Ctx, rng: &mut Rng) -> R {
    for tree in &trees(cx, rng) {
        let f = &tree.flat;
        let s = spine(f);
        let mut ids: Vec<usize> = depths(rng, s.len(), 2).into_iter().map(|it| s[it]).collect();
        ids.extend((0..f.n()).filter(|it| !f.is_node(*it) && rng.pct(3)).take(8));
        for id in ids {
            let (new, got) = match tree.at(id)? {
                NodeOrToken::Node(n) => {
                    let new = Arc::new(T::N(f.kind[id], vec![Arc::new(T::K(3, "new".into()))]));
                    let got = n.replace_with(node_of(&new));
                    (new, got)
                }
                NodeOrToken::Token(t) => (Arc::new(T::K(f.kind[id], "new".into())), t.replace_with(GreenToken::new(t.kind(), "new"))),
            };
            fn put(t: &Arc<T>, path: &[usize], new: &Arc<T>) -> Arc<T> {
                let Some((i, rest)) = path.split_first() else {
                    return new.clone();
                };
                let mut kids = t.kids().to_vec();
                kids[*i] = put(&kids[*i], rest, new);
                Arc::new(T::N(t.kind(), kids))
            }
            let want = put(&tree.term, &f.path(id), &new);
            ck!(cx, got == node_of(&want), "replacing element {} of a deep {} tree", id, tree.flavor);
            ckeq!(cx, u32::from(got.text_len()) as u64, want.len(), "text length after replacing element {} of a deep {} tree", id, tree.flavor);
        }
        same_tree(&tree.root, &tree.term)?;
    }
    Ok(())
}

pub fn c10(cx: &mut Ctx, rng: &mut Rng) -> R {
    for tree in &trees(cx, rng) {
        let f = &tree.flat;
        let s = spine(f);
        for d in [0, s.len() / 2, s.len() - 2] {
            let mut v = View { text: tree.node_at(s[d])?.text(), s: f.text_of(s[d]), how: format!("deep {}", tree.flavor) };
            text::check_view(cx, rng, &v)?;
            v = text::slice(rng, &v);
            text::check_view(cx, rng, &v)?;
        }
    }
    Ok(())
}

pub fn c11(cx: &mut Ctx, rng: &mut Rng) -> R {
    for tree in &trees(cx, rng) {
        let v = elements(rng, &tree.flat, 3);
        let hs: Vec<SyntaxElement> = v.iter().map(|it| tree.at(*it)).collect::<R<_>>()?;
        for (i, a) in v.iter().enumerate() {
            let again = tree.reach(rng, *a)?;
            ck!(cx, again == hs[i] && nav::hash_of(&again) == nav::hash_of(&hs[i]), "two handles to element {} of a deep {} tree", a, tree.flavor);
            for (j, b) in v.iter().enumerate() {
                if i != j && tree.flat.len[*a] > 0 && tree.flat.len[*b] > 0 {
                    ck!(cx, hs[i] != hs[j], "elements {} and {} of a deep {} tree are equal", a, b, tree.flavor);
                }
            }
        }
    }
    Ok(())
}

/// Edits at every depth, with a handle to every node of the path.
pub fn edits(cx: &mut Ctx, rng: &mut Rng) -> R {
    struct Level {
        kind: u16,
        pre: Vec<String>,
        post: Vec<String>,
    }
    let d = depth(cx, rng);
    let mut levels: Vec<Level> = (0..d)
        .map(|i| Level {
            kind: (i % 300) as u16,
            pre: if rng.bool() { vec![format!("{}<", i)] } else { vec![] },
            post: if rng.bool() { vec![format!(">{}é", i)] } else { vec![] },
        })
        .collect();
    fn model(levels: &[Level], chain: &[usize]) -> Arc<T> {
        let tok = |s: &String| Arc::new(T::K(20, s.as_str().into()));
        let mut t: Option<Arc<T>> = None;
        for l in chain.iter().rev().map(|it| &levels[*it]) {
            let mut kids: Vec<Arc<T>> = l.pre.iter().map(tok).collect();
            kids.extend(t);
            kids.extend(l.post.iter().map(tok));
            t = Some(Arc::new(T::N(l.kind, kids)));
        }
        t.unwrap()
    }
    let chain: Vec<usize> = (0..d).collect();
    let first = model(&levels, &chain);
    let origin = SyntaxNode::new_root(node_of(&first));
    // the mutable copy is taken at the bottom
    let bottom = {
        let mut n = origin.clone();
        while let Some(c) = n.first_child() {
            n = c;
        }
        n
    };
    let mut handles: Vec<SyntaxNode> = bottom.clone_for_update().ancestors().collect();
    handles.reverse();
    ckeq!(cx, handles.len(), d, "depth of a mutable clone of the innermost node");
    let snapshot = handles[0].green().into_owned();
    let len = |v: &[String]| v.iter().map(|it| it.len() as u64).sum::<u64>();
    // chains of levels: one for every tree there is
    let mut all: Vec<Vec<usize>> = vec![chain];
    let check = |cx: &mut Ctx, rng: &mut Rng, levels: &[Level], all: &[Vec<usize>], handles: &[SyntaxNode], what: &str| -> R {
        for chain in all {
            let mut off = 0;
            let ends: Vec<u64> = {
                let mut v = vec![];
                let mut n = 0;
                for l in chain.iter().rev() {
                    n += len(&levels[*l].pre) + len(&levels[*l].post);
                    v.push(n);
                }
                v.reverse();
                v
            };
            for (i, l) in chain.iter().enumerate() {
                let h = &handles[*l];
                if i == 0 {
                    ck!(cx, h.parent().is_none(), "{}: the outermost node has a parent", what);
                } else {
                    let up = chain[i - 1];
                    ck!(cx, h.parent().as_ref() == Some(&handles[up]), "{}: parent of a node at depth {}", what, i);
                    ckeq!(cx, h.index(), levels[up].pre.len(), "{}: index of the node at depth {}", what, i);
                }
                ckeq!(cx, h.text_range(), TextRange::new(ts(off), ts(off + ends[i])), "{}: range of the node at depth {} of {}", what, i, chain.len());
                off += len(&levels[*l].pre);
            }
            let root = &handles[chain[0]];
            let i = rng.below(chain.len());
            ck!(cx, handles[chain[i]].ancestors().last().as_ref() == Some(root), "{}: root above depth {}", what, i);
            ckeq!(cx, handles[chain[i]].ancestors().count(), i + 1, "{}: number of ancestors", what);
            let want = model(levels, chain);
            same_tree(root, &want).map_err(|e| format!("{}: {}", what, e))?;
            ck!(cx, *root.green() == *node_of(&want), "{}: green tree", what);
        }
        Ok(())
    };
    check(cx, rng, &levels, &all, &handles, "before the edits")?;
    for step in 0..if cx.tiny { 6 } else { 16 } {
        let c = rng.below(all.len());
        let n = all[c].len();
        let ds = depths(rng, n.max(2), 3);
        let i = (*rng.pick(&ds)).min(n - 1);
        let l = all[c][i];
        let what;
        match rng.below(5) {
            0 | 1 => {
                let front = rng.bool();
                let s = format!("+{}", step);
                let lv = &mut levels[l];
                let kids = lv.pre.len() + lv.post.len() + (i + 1 < n) as usize;
                let at = if front { 0 } else { kids };
                handles[l].splice_children(at..at, vec![fresh_mut(&T::K(20, s.as_str().into()))]);
                match front {
                    true => lv.pre.insert(0, s),
                    false => lv.post.push(s),
                }
                what = "token inserted";
            }
            2 => {
                let lv = &mut levels[l];
                let toks = lv.pre.len() + lv.post.len();
                if toks == 0 {
                    continue;
                }
                // through another handle to the same node
                let h = if i > 0 { handles[all[c][i - 1]].first_child().ok_or("no child")? } else { handles[l].clone() };
                ck!(cx, h == handles[l], "another handle at depth {}", i);
                if lv.pre.is_empty() || (rng.bool() && !lv.post.is_empty()) {
                    h.last_child_or_token().unwrap().detach();
                    lv.post.pop();
                } else {
                    h.first_child_or_token().unwrap().detach();
                    lv.pre.remove(0);
                }
                what = "token detached";
            }
            3 => {
                if i == 0 {
                    continue;
                }
                let rest = all[c].split_off(i);
                handles[l].detach();
                all.push(rest);
                what = "part detached";
            }
            _ => {
                if all.len() < 2 {
                    continue;
                }
                let o = (c + 1 + rng.below(all.len() - 1)) % all.len();
                // below the innermost node of the other
                let under = *all[o].last().unwrap();
                let top = &handles[all[c][0]];
                let at = levels[under].pre.len();
                handles[under].splice_children(at..at, vec![el(top)]);
                let part = std::mem::take(&mut all[c]);
                all[o].extend(part);
                all.remove(c);
                what = "part attached";
            }
        }
        cx.count("deep edits");
        check(cx, rng, &levels, &all, &handles, what)?;
    }
    // nothing of this shows elsewhere
    ck!(cx, snapshot == node_of(&first), "a green tree taken before the edits of a deep tree has changed");
    same_tree(&origin, &first)?;
    Ok(())
}

pub fn c14(cx: &mut Ctx, rng: &mut Rng) -> R {
    let [tree, _] = &trees(cx, rng);
    let f = &tree.flat;
    let s = spine(f);
    for d in depths(rng, s.len(), 2) {
        let n = tree.node_at(s[d])?;
        let m = n.clone_for_update();
        let place = |n: &SyntaxNode| (n.kind(), n.text_range(), n.ancestors().map(|it| it.index()).collect::<Vec<_>>());
        ck!(cx, place(&m) == place(&n), "a mutable clone at depth {} is elsewhere", d);
        let sub = n.clone_subtree();
        ckeq!(cx, sub.text_range(), TextRange::new(ts(0), ts(f.len[s[d]])), "range of a subtree copy from depth {}", d);
        let sub_mut = m.clone_subtree();
        let snap = m.ancestors().last().unwrap().green().into_owned();
        ck!(cx, snap == tree.root.green().into_owned(), "a mutable clone starts out different");
        m.splice_children(0..1, vec![fresh_mut(&T::K(3, "edit".into()))]);
        if d > 1 {
            m.parent().unwrap().parent().unwrap().first_child_or_token().unwrap().detach();
        }
        ck!(cx, snap == node_of(&tree.term), "a snapshot of a deep tree has changed");
        let t = f.term(s[d]);
        same_tree(&sub, &t)?;
        same_tree(&sub_mut, &t)?;
        same_tree(&n, &t)?;
    }
    same_tree(&tree.root, &tree.term)
}

pub fn c20(cx: &mut Ctx, rng: &mut Rng) -> R {
    let [tree, _] = &trees(cx, rng);
    let f = &tree.flat;
    let root = api::SyntaxNode::<Raw>::from(tree.root.clone());
    for id in elements(rng, f, 20) {
        if !f.is_node(id) {
            continue;
        }
        let n = api::SyntaxNode::<Raw>::from(tree.node_at(id)?);
        let got = SyntaxNodePtr::new(&n).try_to_node(&root).ok_or("a pointer into a deep tree does not resolve")?;
        let g = tree.locate(&el(&got.clone().into()))?;
        ck!(cx, (f.kind[g], f.start[g], f.stop(g)) == (f.kind[id], f.start[id], f.stop(id)), "a pointer into a deep tree resolves to another kind or range");
        let same = (0..f.n()).filter(|it| f.is_node(*it) && (f.kind[*it], f.start[*it], f.stop(*it)) == (f.kind[id], f.start[id], f.stop(id))).count();
        ck!(cx, same > 1 || g == id, "a pointer into a deep tree resolves to another node");
    }
    Ok(())
}

pub fn c21(cx: &mut Ctx, rng: &mut Rng) -> R {
    for tree in &trees(cx, rng) {
        let v = elements(rng, &tree.flat, 0);
        for _ in 0..4 {
            let id = *rng.pick(&v);
            misc::typed_element(cx, &tree.at(id)?)?;
        }
        let id = *spine(&tree.flat).last().unwrap();
        misc::typed_node(cx, rng, &tree.node_at(id)?)?;
    }
    Ok(())
}

pub fn c22(cx: &mut Ctx, rng: &mut Rng) -> R {
    for tree in &trees(cx, rng) {
        let s = spine(&tree.flat);
        for d in [0, rng.below(s.len()), s.len() - 1] {
            // the JSON reader has a limit of its own
            let deep = s.len() - d > 50;
            let e = el(&tree.node_at(s[d])?);
            text::check_printed::<Odd>(cx, rng, tree, &e, s[d], !deep)?;
        }
    }
    Ok(())
}

/// Building and taking apart.
pub fn green(cx: &mut Ctx, rng: &mut Rng) -> R {
    let d = depth(cx, rng);
    let t = term(rng, d);
    let a = crate::build::build(rng, &t, None).0;
    let b = crate::build::build(rng, &t, None).0;
    ck!(cx, a == b && nav::hash_of(&a) == nav::hash_of(&b), "equal deep trees differ");
    ck!(cx, crate::build::term_of(&a) == t, "a deep tree is built wrong");
    ckeq!(cx, u32::from(a.text_len()) as u64, t.len(), "text length of a deep tree");
    // one change at the very bottom
    fn change(t: &Arc<T>) -> Arc<T> {
        match &**t {
            T::K(k, s) => Arc::new(T::K(*k, if &**s == "leaf" { "laef".into() } else { s.clone() })),
            T::N(k, kids) => Arc::new(T::N(*k, kids.iter().map(change).collect())),
        }
    }
    let c: GreenNode = node_of(&change(&t));
    ck!(cx, a != c, "deep trees that differ at the bottom are equal");
    ck!(cx, GreenNode::new(sk(1), [NodeOrToken::Node(a)]) == GreenNode::new(sk(1), [NodeOrToken::Node(b)]), "equal deep trees differ");
    Ok(())
}

/// Attaching a node far below itself is refused, whatever the distance.
pub fn below_itself(cx: &mut Ctx, rng: &mut Rng) -> R {
    let [_, mut t] = trees(cx, rng);
    if rng.bool() {
        t.root = SyntaxNode::new_root(t.root.green().into_owned()).clone_for_update();
    }
    let s = spine(&t.flat);
    let mut line = vec![t.root.clone()];
    let mut at = vec![0];
    for w in s.windows(2) {
        let i = t.flat.kids[w[0]].iter().position(|it| *it as usize == w[1]).unwrap();
        at.push(i);
        let next = line.last().unwrap().children_with_tokens().nth(i).and_then(|it| it.into_node()).ok_or("no node on the path")?;
        line.push(next);
    }
    for _ in 0..if cx.tiny { 2 } else { 8 } {
        let ds = depths(rng, line.len(), 3);
        let (x, y) = (*rng.pick(&ds), *rng.pick(&ds));
        let (a, d) = match rng.below(4) {
            0 => (0, x.max(y)),
            1 => (x.min(y), line.len() - 1),
            _ => (x.min(y), x.max(y)),
        };
        let low = &line[d];
        let n = low.children_with_tokens().count();
        let i = rng.below(n + 1);
        // with others before it, which find their place
        let more = rng.below(2);
        let mut els: Vec<SyntaxElement> = (0..more).map(|_| fresh_mut(&T::K(8, "more".into()))).collect();
        els.push(line[a].clone().into());
        let r = catch(|| low.splice_children(i..i, els.clone()));
        ck!(cx, r.is_err(), "not refused: attaching the node at depth {} below the one at depth {}", a, d);
        cx.count(&format!("refused: attaching a node {} levels below itself", if d - a < 256 { "fewer than 256" } else { "256 or more" }));
        for it in &els[..more] {
            it.detach();
        }
        if a > 0 && line[a].parent().is_none() {
            // it has been taken from where it was; the rest is as it has been
            line[a - 1].splice_children(at[a]..at[a], vec![line[a].clone().into()]);
        }
        let up: Vec<SyntaxNode> = low.ancestors().collect();
        ck!(cx, up.iter().rev().eq(&line[..=d]), "ancestors of a node at depth {} after a refused attachment of the one at depth {}", d, a);
        same_tree(&t.root, &t.term)?;
    }
    Ok(())
}
