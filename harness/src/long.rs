//! Texts and lists of children of every length up to some thousands, and around every power of
//! two after that: equal ones, and ones that differ in one place.
use std::{collections::HashMap, sync::Arc};

use rowan::{api, cursor::SyntaxNode, GreenNode, GreenNodeBuilder, GreenNodeData, GreenToken, GreenTokenData, NodeCache, NodeOrToken};

use crate::{
    build::{emit, node_of, ptr_of, same_green, sk, GreenEl},
    ck, ckeq,
    nav::hash_of,
    rng::Rng,
    term::{Flat, T},
    text::{self, Raw, View},
    tree::{ts, Tree},
    util::{clip, Ctx, R},
};

fn lengths(cx: &Ctx, rng: &mut Rng, all: usize, top: u32) -> Vec<usize> {
    if cx.tiny {
        let mut v = vec![0, 1, 7, 8, 9, 16, 33];
        v.push(rng.below(300));
        v.push(1000 + rng.below(100));
        return v;
    }
    let mut v: Vec<usize> = (0..=all).collect();
    for p in 0..top {
        let n = 1usize << p;
        v.extend([n - 1, n, n + 1, n + rng.below(n), n / 2 * 3]);
    }
    for n in [10_000usize, 50_000, 65_535, 65_536, 65_537, 100_000] {
        if n < 1 << top {
            v.extend([n - 1, n, n + 1]);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Printable and without structure.
fn noise(rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        for b in rng.u64().to_le_bytes() {
            v.push(b'!' + b % 90);
        }
    }
    v.truncate(n);
    v
}

/// Places in a text or list of `n`, the first and the last among them.
fn places(rng: &mut Rng, n: usize, more: usize) -> Vec<usize> {
    if n == 0 {
        return vec![];
    }
    let mut v = vec![0, n - 1, n / 2];
    for _ in 0..more {
        v.push(rng.below(n));
    }
    v.sort();
    v.dedup();
    v
}

fn string(v: &[u8]) -> Arc<str> {
    std::str::from_utf8(v).unwrap().into()
}

/// The text with another character at `at`.
fn other(v: &[u8], at: usize) -> Arc<str> {
    let mut v = v.to_vec();
    v[at] = if v[at] == b'~' { b'"' } else { v[at] + 1 };
    string(&v)
}

fn tok(k: u16, s: &Arc<str>) -> Arc<T> {
    Arc::new(T::K(k, s.clone()))
}

/// Equal tokens of any length, and small nodes over them, come out of one cache once.
pub fn c02(cx: &mut Ctx, rng: &mut Rng) -> R {
    let (all, top) = if cx.thorough { (5000, 22) } else { (2200, 18) };
    let ls = lengths(cx, rng, all, top);
    cx.sig(ls.len() as u64 + 5);
    cx.desc(|| format!("one cache, tokens of {} lengths up to {}", ls.len(), ls.last().unwrap()));
    let mut cache = NodeCache::default();
    let mut kept: Vec<GreenNode> = Vec::new();
    for n in ls {
        let base = noise(rng, n);
        let s = string(&base);
        let mut texts = vec![s.clone()];
        for p in places(rng, n, if n < 5000 { 1 } else { 0 }) {
            texts.push(other(&base, p));
        }
        let k = *rng.pick(&[1u16, 2, 300, 0xffff]);
        let mut terms: Vec<Arc<T>> = texts.iter().map(|it| tok(k, it)).collect();
        terms.push(tok(k ^ 4, &s));
        let m = terms.len();
        // every token three times, bare and in nodes, over two trees
        let two = |a: &Arc<T>, b: &Arc<T>| Arc::new(T::N(5, vec![a.clone(), b.clone()]));
        let mut seen: HashMap<usize, usize> = HashMap::new();
        let mut pairs: HashMap<usize, usize> = HashMap::new();
        for round in 0..2 {
            let mut order: Vec<usize> = (0..m).chain(0..m).collect();
            if round == 1 {
                rng.shuffle(&mut order);
            }
            let kids = order.iter().map(|it| terms[*it].clone());
            let nodes = order.iter().map(|it| two(&terms[*it], &terms[(*it + 1) % m]));
            let t = Arc::new(T::N(9, kids.chain(nodes).collect()));
            let mut b = GreenNodeBuilder::with_cache(&mut cache);
            emit(&t, &mut b);
            let g = b.finish();
            cx.checks += 1;
            same_green(&g, &t).map_err(|e| format!("tokens of {} bytes built through one cache: {}", n, e))?;
            let mut token = |cx: &mut Ctx, i: usize, x: &GreenTokenData| -> R {
                let p = x as *const GreenTokenData as *const () as usize;
                let want = *seen.entry(i).or_insert(p);
                ck!(cx, want == p, "equal tokens of {} bytes built through one cache are different allocations", n);
                cx.count("long token sharing checks");
                Ok(())
            };
            for (j, c) in g.children().enumerate() {
                let i = order[j % order.len()];
                match c {
                    NodeOrToken::Token(x) => token(cx, i, x)?,
                    NodeOrToken::Node(x) => {
                        let p = ptr_of(x);
                        let want = *pairs.entry(i).or_insert(p);
                        ck!(cx, want == p, "equal nodes over tokens of {} bytes built through one cache are different allocations", n);
                        for (d, c) in x.children().enumerate() {
                            token(cx, (i + d) % m, c.into_token().ok_or("a node for a token")?)?;
                        }
                    }
                }
            }
            kept.push(g);
        }
        let distinct: std::collections::HashSet<usize> = seen.values().copied().collect();
        ckeq!(cx, distinct.len(), m, "number of tokens of {} bytes that differ in one place", n);
    }
    cx.add("token lengths", kept.len() as u64 / 2);
    Ok(())
}

type GreenRef<'a> = NodeOrToken<&'a GreenNodeData, &'a GreenTokenData>;

fn tokens(cx: &mut Ctx, a: &GreenToken, b: &GreenToken, same: bool, how: &str) -> R {
    let (da, db): (&GreenTokenData, &GreenTokenData) = (a, b);
    let (oa, ob): (GreenEl, GreenEl) = (a.clone().into(), b.clone().into());
    let (ra, rb): (GreenRef, GreenRef) = (a.into(), b.into());
    for (what, eq, ne) in [
        ("owned", a == b, a != b),
        ("owned, swapped", b == a, b != a),
        ("borrowed", da == db, da != db),
        ("borrowed, swapped", db == da, db != da),
        ("owned elements", oa == ob, oa != ob),
        ("borrowed elements", ra == rb, ra != rb),
    ] {
        ckeq!(cx, eq, same, "equality of tokens, {}: {}", what, how);
        ckeq!(cx, ne, !same, "inequality of tokens, {}: {}", what, how);
    }
    if same {
        ck!(cx, hash_of(a) == hash_of(b), "hash of equal tokens: {}", how);
        ck!(cx, hash_of(&oa) == hash_of(&ob), "hash of equal elements: {}", how);
    }
    cx.count(if same { "equal long values" } else { "unequal long values" });
    Ok(())
}

fn nodes(cx: &mut Ctx, a: &GreenNode, b: &GreenNode, same: bool, how: &str) -> R {
    let (da, db): (&GreenNodeData, &GreenNodeData) = (a, b);
    let (oa, ob): (GreenEl, GreenEl) = (a.clone().into(), b.clone().into());
    let (ra, rb): (GreenRef, GreenRef) = (a.into(), b.into());
    for (what, eq, ne) in [
        ("owned", a == b, a != b),
        ("owned, swapped", b == a, b != a),
        ("borrowed", da == db, da != db),
        ("borrowed, swapped", db == da, db != da),
        ("owned elements", oa == ob, oa != ob),
        ("borrowed elements", ra == rb, ra != rb),
    ] {
        ckeq!(cx, eq, same, "equality of nodes, {}: {}", what, how);
        ckeq!(cx, ne, !same, "inequality of nodes, {}: {}", what, how);
    }
    if same {
        ck!(cx, hash_of(a) == hash_of(b), "hash of equal nodes: {}", how);
        ck!(cx, hash_of(&oa) == hash_of(&ob), "hash of equal elements: {}", how);
    }
    cx.count(if same { "equal long values" } else { "unequal long values" });
    Ok(())
}

pub fn c03(cx: &mut Ctx, rng: &mut Rng) -> R {
    let (all, top) = if cx.thorough { (6000, 23) } else { (2200, 19) };
    let ls = lengths(cx, rng, all, top);
    cx.sig(ls.len() as u64 + 6);
    cx.desc(|| format!("values of {} lengths up to {}", ls.len(), ls.last().unwrap()));
    for n in ls {
        // tokens
        let base = noise(rng, n);
        let s = string(&base);
        let k = rng.u64() as u16;
        let a = GreenToken::new(sk(k), &s);
        tokens(cx, &a, &GreenToken::new(sk(k), &s), true, &format!("{} bytes", n))?;
        tokens(cx, &a, &GreenToken::new(sk(k ^ 0x100), &s), false, &format!("{} bytes, another kind", n))?;
        let one = |t: &GreenToken| GreenNode::new(sk(1), [t.clone().into()]);
        for p in places(rng, n, if n < 10_000 { 6 } else { 2 }) {
            let b = GreenToken::new(sk(k), &other(&base, p));
            let how = format!("{} bytes, of which byte {} differs", n, p);
            tokens(cx, &a, &b, false, &how)?;
            nodes(cx, &one(&a), &one(&b), false, &how)?;
        }
        // nodes
        if n > 1 << (top - 4) {
            continue;
        }
        let leaf: [GreenEl; 4] = [
            GreenToken::new(sk(1), "a").into(),
            GreenToken::new(sk(1), "b").into(),
            GreenNode::new(sk(1), []).into(),
            GreenNode::new(sk(1), [GreenToken::new(sk(1), "a").into()]).into(),
        ];
        let same = rng.pct(30);
        let kids: Vec<GreenEl> = (0..n).map(|_| if same { leaf[0].clone() } else { rng.pick(&leaf).clone() }).collect();
        let a = GreenNode::new(sk(k), kids.clone());
        nodes(cx, &a, &GreenNode::new(sk(k), kids.clone()), true, &format!("{} children", n))?;
        nodes(cx, &a, &GreenNode::new(sk(k ^ 0x100), kids.clone()), false, &format!("{} children, another kind", n))?;
        for p in places(rng, n, 3) {
            let mut kids = kids.clone();
            let i = leaf.iter().position(|it| *it == kids[p]).unwrap();
            kids[p] = leaf[(i + 1 + rng.below(3)) % 4].clone();
            let how = format!("{} children, of which number {} differs", n, p);
            nodes(cx, &a, &GreenNode::new(sk(k), kids), false, &how)?;
        }
    }
    cx.count("length sweeps");
    Ok(())
}

fn cut(rng: &mut Rng, s: &str, how: usize) -> Arc<T> {
    match how {
        0 => Arc::new(T::N(1, vec![Arc::new(T::K(1, s.into()))])),
        1 if s.len() < 5000 => text::rechunk(rng, s),
        _ => {
            let mut cuts = vec![0, s.len()];
            for _ in 0..[1, 40][how & 1] {
                cuts.push(rng.below(s.len() + 1));
            }
            cuts.sort();
            Arc::new(T::N(1, cuts.windows(2).map(|w| Arc::new(T::K(1, s[w[0]..w[1]].into()))).collect()))
        }
    }
}

pub fn c10(cx: &mut Ctx, rng: &mut Rng) -> R {
    let (all, top) = if cx.thorough { (4000, 21) } else { (1300, 17) };
    let ls = lengths(cx, rng, all, top);
    cx.sig(ls.len() as u64 + 7);
    cx.desc(|| format!("texts of {} lengths up to {}", ls.len(), ls.last().unwrap()));
    for n in ls {
        let base = noise(rng, n);
        let s = string(&base);
        let mk = |rng: &mut Rng, s: &str, how: usize| {
            let t = cut(rng, s, how);
            SyntaxNode::new_root(node_of(&t)).text()
        };
        let views: Vec<_> = (0..3).map(|it| mk(rng, &s, it)).collect();
        let mut pairs: Vec<(usize, Arc<str>)> = vec![(n, s.clone())];
        for p in places(rng, n, 2) {
            pairs.push((p, other(&base, p)));
        }
        for (p, o) in pairs {
            let want = p == n;
            let how = if want { format!("texts of {} bytes", n) } else { format!("texts of {} bytes that differ in byte {}", n, p) };
            let k = rng.below(3);
            let w = mk(rng, &o, k);
            for (i, v) in views.iter().enumerate() {
                if rng.bool() {
                    ckeq!(cx, *v == w, want, "equality of {}, cuts {} and {}", how, i, k);
                } else {
                    ckeq!(cx, w != *v, !want, "inequality of {}, cuts {} and {}", how, k, i);
                }
            }
            let i = rng.below(3);
            let v = &views[i];
            let eq = match rng.below(4) {
                0 => *v == *o,
                1 => *o == *v,
                2 => *v == &*o,
                _ => &*o == *v,
            };
            ckeq!(cx, eq, want, "equality with a string of {}, cut {}", how, i);
            cx.count(if want { "equal long texts" } else { "unequal long texts" });
            // what comes before and after the difference is equal
            if !want {
                let r = (p as u64, p as u64 + 1);
                let v = &views[k];
                ck!(cx, v.slice(..ts(r.0)) == w.slice(..ts(r.0)), "equality of {} before it", how);
                ck!(cx, v.slice(ts(r.1)..) == w.slice(ts(r.1)..), "equality of {} after it", how);
                ck!(cx, v.slice(ts(r.0)..ts(r.1)) != w.slice(ts(r.0)..ts(r.1)), "inequality of {} there", how);
            }
        }
        // a character that occurs once
        for p in places(rng, n, 1) {
            let mut b = base.clone();
            b[p] = b'~';
            b.iter_mut().enumerate().for_each(|(i, it)| *it = if i != p && *it == b'~' { b'x' } else { *it });
            let k = rng.below(3);
            let v = mk(rng, &string(&b), k);
            ckeq!(cx, v.find_char('~').map(u32::from), Some(p as u32), "find_char at {} of {} bytes", p, n);
            ckeq!(cx, v.contains_char('~'), true, "contains_char at {} of {} bytes", p, n);
            ckeq!(cx, v.char_at(ts(p as u64)), Some('~'), "char_at {} of {} bytes", p, n);
            let w = v.slice(ts(p as u64)..);
            ckeq!(cx, (w.find_char('~').map(u32::from), w.char_at(ts(0))), (Some(0), Some('~')), "lookup in what starts at {} of {} bytes", p, n);
            let w = v.slice(..ts(p as u64));
            ckeq!(cx, (w.find_char('~').map(u32::from), w.contains_char('~')), (None, false), "lookup in what ends at {} of {} bytes", p, n);
        }
    }
    cx.count("length sweeps");
    Ok(())
}

/// Debug, display and serialized forms of tokens of every length.
pub fn c22(cx: &mut Ctx, rng: &mut Rng) -> R {
    let (all, top) = if cx.thorough { (4000, 20) } else { (1300, 17) };
    let ls = lengths(cx, rng, all, top);
    cx.sig(ls.len() as u64 + 8);
    cx.desc(|| format!("tokens of {} lengths up to {}", ls.len(), ls.last().unwrap()));
    for n in ls {
        let s: Arc<str> = if rng.bool() {
            string(&noise(rng, n))
        } else {
            // wide characters, cut in every phase
            let unit = *rng.pick(&["é", "日", "🦀", "\n", "\u{301}", "\"", "\\"]);
            let lead = rng.below(4).min(n);
            let mut s = "x".repeat(lead);
            while s.len() + unit.len() <= n {
                s.push_str(unit);
            }
            while s.len() < n {
                s.push('y');
            }
            s.into()
        };
        let before = rng.below(3);
        let mut kids: Vec<Arc<T>> = (0..before).map(|_| Arc::new(T::K(3, "é ".into()))).collect();
        kids.push(Arc::new(T::K(4, s.clone())));
        kids.push(Arc::new(T::N(5, vec![])));
        let term = Arc::new(T::N(1, kids));
        let tree =
            Tree { root: SyntaxNode::new_root(node_of(&term)), flat: Flat::new(&term), term: term.clone(), flavor: "immutable", keep: vec![], other: vec![] };
        for id in [0, before + 1] {
            let e = tree.at(id)?;
            text::check_one::<Raw>(cx, rng, &tree, &e, id)?;
        }
        let x = tree.at(before + 1)?.into_token().ok_or("no token")?;
        ckeq!(cx, x.green().to_string(), &*s, "display form of a green token of {} bytes", n);
        let d = format!("{:?}", x.green());
        ck!(cx, d.contains(&format!("{:?}", s)), "debug form of a green token of {} bytes: {}", n, clip(&d, 80));
        let a: api::SyntaxNode<Raw> = tree.root.clone().into();
        ckeq!(cx, a.green().to_string(), term.text(), "display form of a green node over a token of {} bytes", n);
        let v = View { text: a.text(), s: term.text(), how: format!("text with a token of {} bytes", n) };
        if n % 16 == 0 && n < 5000 {
            text::check_view(cx, rng, &v)?;
        }
        cx.count("long tokens");
    }
    cx.count("length sweeps");
    Ok(())
}
