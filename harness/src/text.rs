//! Text views, printing, serialization.
use std::sync::Arc;

use rowan::{
    api,
    cursor::{SyntaxElement, SyntaxNode},
    Language, NodeOrToken, SyntaxKind, SyntaxText, TextRange, TextSize,
};
use serde_json::Value;

use crate::{
    build::{node_of, term_of},
    ck, ckeq,
    nav::setup,
    rng::Rng,
    sink::{refuse, refuse_ser},
    term::{rand_str, Flat, T},
    tree::{el, make_tree, rng_of, ts, Pick, Tree},
    util::{catch, clip, Ctx, R},
};

/// The untouched kinds.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Raw {}
impl Language for Raw {
    type Kind = SyntaxKind;
    fn kind_from_raw(raw: SyntaxKind) -> SyntaxKind {
        raw
    }
    fn kind_to_raw(kind: SyntaxKind) -> SyntaxKind {
        kind
    }
}

/// Another numbering, with a `Debug` form that needs escaping.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Odd {}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct OddKind(pub u32);
impl std::fmt::Debug for OddKind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "K\"{}\n\\é", self.0)
    }
}
impl Language for Odd {
    type Kind = OddKind;
    fn kind_from_raw(raw: SyntaxKind) -> OddKind {
        OddKind((raw.0 as u32).wrapping_mul(3) + 7)
    }
    fn kind_to_raw(kind: OddKind) -> SyntaxKind {
        SyntaxKind(((kind.0 - 7) / 3) as u16)
    }
}

pub fn boundaries(s: &str) -> Vec<usize> {
    let mut v: Vec<usize> = s.char_indices().map(|it| it.0).collect();
    v.push(s.len());
    v
}

/// The same text, cut into tokens in a different way.
pub fn rechunk(rng: &mut Rng, s: &str) -> Arc<T> {
    let b = boundaries(s);
    let mut cuts = vec![0];
    let p = *rng.pick(&[0, 10, 40, 100]);
    for it in &b {
        if rng.pct(p) && cuts.last() != Some(it) {
            cuts.push(*it);
        }
        if rng.pct(5) {
            cuts.push(*cuts.last().unwrap());
        }
    }
    cuts.push(s.len());
    let mut kids: Vec<Arc<T>> = cuts.windows(2).map(|w| Arc::new(T::K(3, s[w[0]..w[1]].into()))).collect();
    // some go into nodes of their own, and empty nodes come in between
    let mut out: Vec<Arc<T>> = Vec::new();
    while !kids.is_empty() {
        let n = rng.range(1, kids.len().min(4));
        let part: Vec<_> = kids.drain(..n).collect();
        if rng.bool() {
            out.push(Arc::new(T::N(4, part)));
        } else {
            out.extend(part);
        }
        if rng.pct(15) {
            out.push(Arc::new(T::N(5, vec![])));
        }
    }
    Arc::new(T::N(2, out))
}

pub struct View {
    pub text: SyntaxText,
    pub s: String,
    pub how: String,
}

pub fn check_view(cx: &mut Ctx, rng: &mut Rng, v: &View) -> R {
    let (t, s, how) = (&v.text, v.s.as_str(), &v.how);
    ckeq!(cx, t.len(), TextSize::of(s), "length of {}", how);
    ckeq!(cx, t.is_empty(), s.is_empty(), "emptiness of {}", how);
    ckeq!(cx, t.to_string(), s, "string of {}", how);
    ckeq!(cx, String::from(t.clone()), s, "String::from {}", how);
    ckeq!(cx, format!("{:?}", t), format!("{:?}", s), "debug form of {}", how);
    // searching
    let mut cs: Vec<char> = vec!['a', 'é', '日', '\u{10ffff}', '\0', ' ', 'z'];
    let all: Vec<char> = s.chars().collect();
    for _ in 0..6 {
        if !all.is_empty() {
            let c = *rng.pick(&all);
            // (and one that only looks like it: numbers that agree in part, encodings that overlap)
            let n = c as u32;
            let mut buf = [0; 4];
            let bytes = c.encode_utf8(&mut buf).as_bytes();
            let like = match rng.below(5) {
                0 => *rng.pick(bytes) as u32,
                1 => n & 0xff,
                2 => n & 0x7f,
                3 => n ^ (1 << rng.below(16)),
                _ => n & 0xffff,
            };
            cs.extend(char::from_u32(like));
            cs.push(c);
        }
    }
    for c in cs {
        ckeq!(cx, t.contains_char(c), s.contains(c), "contains_char({:?}) of {}", c, how);
        ckeq!(cx, t.find_char(c).map(|it| u32::from(it) as usize), s.find(c), "find_char({:?}) of {}", c, how);
    }
    // lookup
    let b = boundaries(s);
    for _ in 0..6 {
        let off = *rng.pick(&b);
        ckeq!(cx, t.char_at(ts(off as u64)), s[off..].chars().next(), "char_at({}) of {}", off, how);
    }
    for off in [0, s.len()] {
        ckeq!(cx, t.char_at(ts(off as u64)), s[off..].chars().next(), "char_at({}) of {}", off, how);
    }
    ckeq!(cx, t.char_at(ts(s.len() as u64 + 1 + rng.below(5) as u64)), None, "char_at past the end of {}", how);
    // chunks
    let mut cat = String::new();
    let mut n = 0;
    t.for_each_chunk(|c| {
        cat.push_str(c);
        n += 1;
    });
    ckeq!(cx, cat, s, "chunks of {}", how);
    let stop = rng.below(n + 1);
    let mut cat = String::new();
    let mut k = 0;
    let r = t.try_for_each_chunk(|c| {
        if k == stop {
            return Err(k);
        }
        k += 1;
        cat.push_str(c);
        Ok(())
    });
    ckeq!(cx, r, if stop < n { Err(stop) } else { Ok(()) }, "early stop at chunk {} of {} of {}", stop, n, how);
    ck!(cx, s.starts_with(&cat), "chunks before the stop of {} are {:?}", how, cat);
    let r: Result<(usize, String), ()> = t.try_fold_chunks((0, String::new()), |(n, mut acc), c| {
        acc.push_str(c);
        Ok((n + 1, acc))
    });
    ckeq!(cx, r, Ok((n, s.to_string())), "folded chunks of {}", how);
    // comparing with strings
    let mut others: Vec<String> = vec![s.to_string(), String::new(), format!("{}x", s), format!("x{}", s)];
    if !s.is_empty() {
        let cut = *rng.pick(&b);
        others.push(s[..cut].to_string());
        others.push(s[cut..].to_string());
        others.push(all.iter().rev().collect());
        let i = rng.below(all.len());
        let mut x = all.clone();
        x[i] = if x[i] == 'q' { 'w' } else { 'q' };
        others.push(x.iter().collect());
        let mut x = all.clone();
        x.remove(i);
        others.push(x.iter().collect());
    }
    for o in &others {
        let want = o == s;
        let o = o.as_str();
        ckeq!(cx, *t == *o, want, "{} == str {:?}", how, clip(o, 80));
        ckeq!(cx, *o == *t, want, "str {:?} == {}", clip(o, 80), how);
        ckeq!(cx, *t == o, want, "{} == &str {:?}", how, clip(o, 80));
        ckeq!(cx, o == *t, want, "&str {:?} == {}", clip(o, 80), how);
        ckeq!(cx, *t != *o, !want, "{} != str {:?}", how, clip(o, 80));
    }
    Ok(())
}

/// A slice on character boundaries, through every form of range.
pub fn slice(rng: &mut Rng, v: &View) -> View {
    let b = boundaries(&v.s);
    let (mut i, mut j) = (rng.below(b.len()), rng.below(b.len()));
    if i > j {
        std::mem::swap(&mut i, &mut j);
    }
    let (i, j) = (b[i], b[j]);
    let (x, y) = (ts(i as u64), ts(j as u64));
    let (text, s, what) = match rng.below(7) {
        0 => (v.text.slice(..), &v.s[..], "..".to_string()),
        1 => (v.text.slice(x..), &v.s[i..], format!("{}..", i)),
        2 => (v.text.slice(..y), &v.s[..j], format!("..{}", j)),
        3 | 4 => (v.text.slice(x..y), &v.s[i..j], format!("{}..{}", i, j)),
        _ => (v.text.slice(TextRange::new(x, y)), &v.s[i..j], format!("[{}, {})", i, j)),
    };
    View { text, s: s.to_string(), how: format!("{} sliced {}", v.how, what) }
}

fn cmp(cx: &mut Ctx, a: &View, b: &View) -> R {
    let want = a.s == b.s;
    ckeq!(cx, a.text == b.text, want, "({}) == ({})", a.how, b.how);
    ckeq!(cx, b.text == a.text, want, "({}) == ({})", b.how, a.how);
    ckeq!(cx, a.text != b.text, !want, "({}) != ({})", a.how, b.how);
    cx.count(if want { "equal texts" } else { "unequal texts" });
    Ok(())
}

pub fn view(tree: &Tree, id: usize) -> R<View> {
    let n = tree.node_at(id)?;
    Ok(View { text: n.text(), s: tree.flat.text_of(id), how: format!("text of element {} of {} {}", id, tree.flavor, tree.term.show()) })
}

fn nodes(f: &Flat) -> Vec<usize> {
    (0..f.n()).filter(|it| f.is_node(*it)).collect()
}

pub fn c10(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = *rng.pick(&[4, 10, 30, 60]);
    let tree = setup(cx, rng, Pick::Any, budget)?;
    let ns = nodes(&tree.flat);
    let mut views = Vec::new();
    for _ in 0..if cx.tiny { 1 } else { rng.range(1, 4) } {
        let id = if rng.pct(40) { 0 } else { *rng.pick(&ns) };
        let mut v = view(&tree, id)?;
        check_view(cx, rng, &v)?;
        for _ in 0..rng.below(4) {
            let w = slice(rng, &v);
            views.push(v);
            v = w;
            check_view(cx, rng, &v)?;
            cx.count("slices");
        }
        views.push(v);
    }
    // other trees with the same or almost the same text
    let base = &views[rng.below(views.len())];
    let (base_s, base_how) = (base.s.clone(), base.how.clone());
    let mut variants = vec![base_s.clone(), base_s.clone()];
    let chars: Vec<char> = base_s.chars().collect();
    if !chars.is_empty() {
        let i = rng.below(chars.len());
        let mut x = chars.clone();
        // same length in bytes, so that only the contents tell
        x[i] = match x[i].len_utf8() {
            1 => {
                if x[i] == 'm' {
                    'n'
                } else {
                    'm'
                }
            }
            2 => {
                if x[i] == 'ñ' {
                    'ü'
                } else {
                    'ñ'
                }
            }
            3 => {
                if x[i] == '中' {
                    '国'
                } else {
                    '中'
                }
            }
            _ => {
                if x[i] == '🐼' {
                    '🐻'
                } else {
                    '🐼'
                }
            }
        };
        variants.push(x.iter().collect());
        let mut x = chars.clone();
        x.pop();
        variants.push(x.iter().collect());
        let mut x = chars.clone();
        x.reverse();
        variants.push(x.iter().collect());
    }
    variants.push(format!("{}!", base_s));
    for s in variants {
        // on its own, or surrounded by more text that is sliced off
        let (pre, post) = if rng.bool() { (rand_str(rng, &['p', 'é', '🦀'], 2), rand_str(rng, &['q', '日'], 3)) } else { (String::new(), String::new()) };
        let t = rechunk(rng, &format!("{}{}{}", pre, s, post));
        let o = make_tree(rng, &t, Pick::Any, None)?;
        let v = view(&o, 0)?;
        let (a, b) = (pre.len() as u64, (pre.len() + s.len()) as u64);
        let text = if rng.bool() { v.text.slice(ts(a)..ts(b)) } else { v.text.slice(ts(a)..).slice(..ts(b - a)) };
        let v = View { text, s, how: format!("{} sliced {}..{}", v.how, a, b) };
        check_view(cx, rng, &v)?;
        for w in &views {
            if w.how == base_how || rng.bool() {
                cmp(cx, w, &v)?;
            }
        }
        views.push(v);
        if views.len() > 9 {
            break;
        }
    }
    for i in 0..views.len() {
        let j = rng.below(views.len());
        cmp(cx, &views[i], &views[j])?;
    }
    // slices of the wrong kind are refused, and the view is none the worse
    let v = &views[rng.below(views.len())];
    let n = v.s.len() as u64;
    for (a, b) in [(0, n + 1), (n + 1, n + 1), (n, n + 7)] {
        let r = catch(|| v.text.slice(ts(a)..ts(b)));
        ck!(cx, r.is_err(), "slice {}..{} of {} bytes is not refused", a, b, n);
    }
    check_view(cx, rng, v)?;
    cx.add("views", views.len() as u64);
    Ok(())
}

pub fn c10_special(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    // one long text, cut into many or few tokens
    let n = if cx.tiny { 50 } else { 60_000 };
    let s = crate::term::rand_text(rng, 1) + &"abcdé日🦀\n".repeat(n / 8);
    let mut vs = Vec::new();
    for k in 0..3 {
        let t: Arc<T> = match (which + k) % 3 {
            0 => Arc::new(T::N(1, vec![Arc::new(T::K(1, s.as_str().into()))])),
            1 => Arc::new(T::N(1, s.chars().map(|c| Arc::new(T::K(1, c.to_string().into()))).collect())),
            _ => rechunk(rng, &s),
        };
        let tree = Tree { root: SyntaxNode::new_root(node_of(&t)), flat: Flat::new(&t), term: t, flavor: "immutable", keep: vec![], other: vec![] };
        let v = View { text: tree.root.text(), s: s.clone(), how: format!("long text, cut {}", (which + k) % 3) };
        check_view(cx, rng, &v)?;
        vs.push(v);
    }
    cmp(cx, &vs[0], &vs[1])?;
    cmp(cx, &vs[1], &vs[2])?;
    cmp(cx, &vs[2], &vs[0])?;
    let b = boundaries(&s);
    for _ in 0..4 {
        let k = *rng.pick(&b);
        let cut = |v: &View| View { text: v.text.slice(ts(k as u64)..), s: s[k..].to_string(), how: format!("{} from {}", v.how, k) };
        cmp(cx, &cut(&vs[0]), &cut(&vs[1]))?;
        cmp(cx, &cut(&vs[1]), &cut(&vs[2]))?;
    }
    cx.sig(which as u64);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C22

fn tok_debug<L: Language>(cx: &mut Ctx, got: &str, kind: L::Kind, range: TextRange, text: &str) -> R {
    let head = format!("{:?}@{:?} ", kind, range);
    ck!(cx, got.starts_with(&head), "debug form {:?} does not start with {:?}", clip(got, 100), head);
    let rest = &got[head.len()..];
    if text.len() < 25 {
        ckeq!(cx, rest, format!("{:?}", text), "debug form of a token with a short text");
    } else {
        // a prefix of 21 to 24 bytes, cut at a character boundary, and dots
        let ok = (21..25).filter(|it| text.is_char_boundary(*it)).any(|it| rest == format!("{:?}", format!("{} ...", &text[..it])));
        ck!(cx, ok, "debug form of the token text {:?} is {:?}", clip(text, 60), clip(rest, 100));
    }
    Ok(())
}

fn check_debug<L: Language>(cx: &mut Ctx, tree: &Tree, id: usize) -> R {
    let f = &tree.flat;
    let n = api::SyntaxNode::<L>::from(tree.node_at(id)?);
    let got = format!("{:#?}", n);
    let end = f.end[id] as usize;
    // kinds may contain newlines, so compare piece by piece instead of line by line
    let mut rest = got.as_str();
    let mut depth = vec![0usize; f.n()];
    for i in id..end {
        if i > id {
            depth[i] = depth[f.parent(i).unwrap()] + 1;
        }
        let kind = L::kind_from_raw(SyntaxKind(f.kind[i]));
        let indent = "  ".repeat(depth[i]);
        ck!(cx, rest.starts_with(&indent), "debug form of {} lacks the indentation of element {}: {:?}", tree.term.show(), i, clip(rest, 80));
        rest = &rest[indent.len()..];
        let head = format!("{:?}@{:?}", kind, rng_of(f, i));
        ck!(cx, rest.starts_with(&head), "debug form of {}: expected {:?} for element {}, found {:?}", tree.term.show(), head, i, clip(rest, 80));
        let line_end = match &f.text[i] {
            None => head.len(),
            Some(_) => head.len() + rest[head.len()..].find('\n').ok_or("debug form ends in the middle of a line")?,
        };
        let line = &rest[..line_end];
        match &f.text[i] {
            None => ckeq!(cx, line, head, "debug form of element {}", i),
            Some(text) => tok_debug::<L>(cx, line, kind, rng_of(f, i), text)?,
        }
        rest = &rest[line_end..];
        ck!(cx, rest.starts_with('\n'), "debug form of {}: element {} is not alone on its line: {:?}", tree.term.show(), i, clip(rest, 40));
        rest = &rest[1..];
        cx.count("debug lines");
    }
    ckeq!(cx, rest, "", "rest of the debug form of {}", tree.term.show());
    ckeq!(cx, format!("{:?}", n), format!("{:?}@{:?}", n.kind(), rng_of(f, id)), "short debug form");
    Ok(())
}

fn check_ser<L: Language>(cx: &mut Ctx, f: &Flat, id: usize, v: &Value) -> R {
    let Value::Object(m) = v else {
        return Err(format!("element {} is serialized as {}", id, clip(&v.to_string(), 80)));
    };
    let kind = L::kind_from_raw(SyntaxKind(f.kind[id]));
    ckeq!(cx, m.get("kind").and_then(|it| it.as_str()), Some(format!("{:?}", kind).as_str()), "serialized kind of element {}", id);
    ckeq!(cx, m.get("text_range"), Some(&serde_json::json!([f.start[id], f.stop(id)])), "serialized range of element {}", id);
    ckeq!(cx, m.len(), 3, "number of fields of element {}", id);
    match &f.text[id] {
        Some(t) => ckeq!(cx, m.get("text").and_then(|it| it.as_str()), Some(&**t), "serialized text of element {}", id),
        None => {
            let c = m.get("children").and_then(|it| it.as_array()).ok_or_else(|| format!("element {} has no children array", id))?;
            ckeq!(cx, c.len(), f.kids[id].len(), "number of serialized children of element {}", id);
            for (c, k) in c.iter().zip(&f.kids[id]) {
                check_ser::<L>(cx, f, *k as usize, c)?;
            }
        }
    }
    cx.count("serialized elements");
    Ok(())
}

/// What `Serialize` says, without a JSON printer in between.
fn rebuild(v: &Value) -> R<Arc<T>> {
    let k: u16 = v["kind"].as_str().and_then(|it| it.strip_prefix("SyntaxKind(")?.strip_suffix(')')?.parse().ok()).ok_or("no kind")?;
    Ok(Arc::new(match v.get("children").and_then(|it| it.as_array()) {
        Some(c) => T::N(k, c.iter().map(rebuild).collect::<R<_>>()?),
        None => T::K(k, v["text"].as_str().ok_or("no text")?.into()),
    }))
}

pub fn check_one<L: Language>(cx: &mut Ctx, rng: &mut Rng, tree: &Tree, e: &SyntaxElement, id: usize) -> R {
    check_printed::<L>(cx, rng, tree, e, id, true)
}

/// `reread`: the JSON text is read back, too.
pub fn check_printed<L: Language>(cx: &mut Ctx, rng: &mut Rng, tree: &Tree, e: &SyntaxElement, id: usize, reread: bool) -> R {
    let f = &tree.flat;
    let tries = if cx.tiny { 1 } else { *rng.pick(&[1, 2, 6]) };
    refuse(cx, rng, tries, "display of an element", &|w| write!(w, "{}", e))?;
    refuse(cx, rng, tries, "debug form of an element", &|w| write!(w, "{:?}", e))?;
    let want = f.text_of(id);
    ckeq!(cx, e.to_string(), want, "display of element {}", id);
    match e {
        NodeOrToken::Node(n) => {
            let t = api::SyntaxNode::<L>::from(n.clone());
            ckeq!(cx, n.to_string(), want, "display of node {}", id);
            ckeq!(cx, t.to_string(), want, "display of typed node {}", id);
            ckeq!(cx, n.text().to_string(), want, "display of the text view of {}", id);
            let g = n.green();
            ckeq!(cx, g.to_string(), want, "display of the green node of {}", id);
            ckeq!(cx, g.into_owned().to_string(), want, "display of the owned green node of {}", id);
            check_debug::<L>(cx, tree, id)?;
            let v = serde_json::to_value(&t).map_err(|e| format!("serialization fails: {}", e))?;
            check_ser::<L>(cx, f, id, &v)?;
            let s = serde_json::to_string(&t).map_err(|e| format!("serialization fails: {}", e))?;
            if reread {
                let back: Value = serde_json::from_str(&s).map_err(|e| format!("not even JSON: {}", e))?;
                ck!(cx, back == v, "the two forms of serialization differ");
            }
            refuse(cx, rng, tries, "display of a typed node", &|w| write!(w, "{}", t))?;
            refuse(cx, rng, tries, "debug form of a node", &|w| write!(w, "{:?}", t))?;
            refuse(cx, rng, 4 * tries, "indented debug form of a node", &|w| write!(w, "{:#?}", t))?;
            refuse(cx, rng, tries, "display of a text view", &|w| write!(w, "{}", n.text()))?;
            refuse(cx, rng, tries, "debug form of a text view", &|w| write!(w, "{:?}", n.text()))?;
            let g = n.green().into_owned();
            refuse(cx, rng, tries, "display of a green node", &|w| write!(w, "{}", g))?;
            refuse(cx, rng, tries, "debug form of a green node", &|w| write!(w, "{:?}", g))?;
            refuse_ser(cx, rng, 4 * tries, "a node", &t)?;
        }
        NodeOrToken::Token(k) => {
            let t = api::SyntaxToken::<L>::from(k.clone());
            ckeq!(cx, k.to_string(), want, "display of token {}", id);
            ckeq!(cx, t.to_string(), want, "display of typed token {}", id);
            ckeq!(cx, k.green().to_string(), want, "display of the green token of {}", id);
            ckeq!(cx, k.green().to_owned().to_string(), want, "display of the owned green token of {}", id);
            let d = format!("{:?}", t);
            tok_debug::<L>(cx, &d, t.kind(), rng_of(f, id), &want)?;
            let d = format!("{:#?}", t);
            tok_debug::<L>(cx, &d, t.kind(), rng_of(f, id), &want)?;
            let v = serde_json::to_value(&t).map_err(|e| format!("serialization fails: {}", e))?;
            check_ser::<L>(cx, f, id, &v)?;
            refuse(cx, rng, tries, "display of a typed token", &|w| write!(w, "{}", t))?;
            refuse(cx, rng, 2 * tries, "debug form of a token", &|w| write!(w, "{:?}", t))?;
            let g = k.green().to_owned();
            refuse(cx, rng, tries, "display of a green token", &|w| write!(w, "{}", g))?;
            refuse(cx, rng, tries, "debug form of a green token", &|w| write!(w, "{:?}", g))?;
            refuse_ser(cx, rng, 4 * tries, "a token", &t)?;
        }
    }
    // never fails for any text
    let _ = format!("{:?} {:#?}", e, e);
    cx.count("printed");
    Ok(())
}

pub fn c22(cx: &mut Ctx, rng: &mut Rng) -> R {
    let budget = *rng.pick(&[4, 10, 25, 50]);
    let tree = setup(cx, rng, Pick::Any, budget)?;
    let sel = crate::nav::ids(rng, &tree.flat, if cx.tiny { 2 } else { 12 });
    for id in sel {
        let e = if rng.bool() { tree.at(id)? } else { tree.reach(rng, id)? };
        if rng.bool() {
            check_one::<Raw>(cx, rng, &tree, &e, id)?;
        } else {
            check_one::<Odd>(cx, rng, &tree, &e, id)?;
        }
    }
    let v = serde_json::to_value(api::SyntaxNode::<Raw>::from(tree.root.clone())).map_err(|e| e.to_string())?;
    let back = rebuild(&v)?;
    ck!(cx, back == tree.term, "{} is serialized and read back as {}", tree.term.show(), back.show());
    ck!(cx, term_of(&node_of(&back)) == tree.term, "rebuilding {} fails", tree.term.show());
    let _ = format!("{:?} {:#?}", tree.root.green(), el(&tree.root));
    Ok(())
}

pub fn c22_special(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    // every length around the limit, with every alignment of wide characters
    let mut kids: Vec<Arc<T>> = Vec::new();
    let wide = ["é", "日", "🦀", "\u{301}", "\n", "\"", "\\", "\0"];
    for len in 17..=30usize {
        for w in wide.iter().skip(which % 2).step_by(2) {
            for lead in 0..4usize {
                let mut s = "a".repeat(lead);
                while s.len() + w.len() <= len {
                    s.push_str(w);
                }
                while s.len() < len {
                    s.push('z');
                }
                kids.push(Arc::new(T::K((lead * 7) as u16, s.into())));
                if rng.pct(10) {
                    kids.push(Arc::new(T::N(99, vec![])));
                }
            }
        }
    }
    if cx.tiny {
        kids.truncate(10);
    }
    let t = Arc::new(T::N(5, kids));
    cx.sig(t.sig());
    let tree = Tree { root: SyntaxNode::new_root(node_of(&t)), flat: Flat::new(&t), term: t, flavor: "immutable", keep: vec![], other: vec![] };
    for id in 0..tree.flat.n() {
        let e = tree.at(id)?;
        check_one::<Raw>(cx, rng, &tree, &e, id)?;
    }
    Ok(())
}
