//! The tutorials under arbitrary input (C23).
use std::fmt::Write;

use monlib::{
    ck, ckeq,
    rng::Rng,
    runner::Prop,
    util::{Ctx, R, clip},
};

#[cfg(not(any(miri, feature = "plainalloc")))]
#[global_allocator]
static ALLOC: monlib::alloc::Mon = monlib::alloc::Mon;

#[allow(dead_code, unused, clippy::all)]
mod sexp {
    include!(concat!(env!("OUT_DIR"), "/s_expressions.rs"));

    pub struct Out {
        pub text: String,
        pub pieces: String,
        pub range: (u32, u32),
        pub errors: Vec<String>,
        pub shape: Vec<(String, String)>,
    }

    /// What the parser makes of a text.
    pub fn observe(input: &str) -> Out {
        let p = parse(input);
        let root = p.syntax();
        let pieces = root
            .descendants_with_tokens()
            .filter_map(|it| it.into_token())
            .map(|it| it.text().to_string())
            .collect();
        let shape = root
            .children()
            .map(|it| (format!("{:?}", it.kind()), it.text().to_string()))
            .collect();
        Out {
            text: root.text().to_string(),
            pieces,
            range: (
                root.text_range().start().into(),
                root.text_range().end().into(),
            ),
            errors: p.errors,
            shape,
        }
    }

    pub fn values(input: &str) -> Vec<Option<i64>> {
        parse(input).root().sexps().map(|it| it.eval()).collect()
    }
}

#[allow(dead_code, unused, clippy::all)]
mod math {
    include!(concat!(env!("OUT_DIR"), "/math.rs"));

    #[derive(Debug, Clone, PartialEq)]
    pub enum Shape {
        Leaf(String),
        Op(Vec<Shape>),
        Bad(String),
    }

    pub fn token(s: &str) -> (SyntaxKind, String) {
        let k = match s {
            "+" => ADD,
            "-" => SUB,
            "*" => MUL,
            "/" => DIV,
            _ if s.trim().is_empty() => WHITESPACE,
            _ => NUMBER,
        };
        (k, s.to_string())
    }

    pub fn run(tokens: &[String]) -> (Vec<String>, Vec<Shape>) {
        let toks: Vec<_> = tokens.iter().map(|it| token(it)).collect();
        let root = Parser {
            builder: GreenNodeBuilder::new(),
            iter: toks.into_iter().peekable(),
        }
        .parse();
        let kept = root
            .descendants_with_tokens()
            .filter_map(|it| it.into_token())
            .map(|it| it.text().to_string())
            .collect();
        (kept, kids(&root))
    }

    fn kids(n: &SyntaxNode) -> Vec<Shape> {
        n.children_with_tokens()
            .filter_map(|it| match it {
                NodeOrToken::Token(t) if t.kind() == WHITESPACE => None,
                NodeOrToken::Token(t) => Some(Shape::Leaf(t.text().to_string())),
                NodeOrToken::Node(n) if n.kind() == OPERATION => Some(Shape::Op(kids(&n))),
                NodeOrToken::Node(n) => Some(Shape::Bad(format!(
                    "{:?} {:?}",
                    n.kind(),
                    n.text().to_string()
                ))),
            })
            .collect()
    }
}

use math::Shape;

fn random_text(rng: &mut Rng) -> String {
    let n = *rng.pick(&[0, 1, 2, 5, 12, 30, 80]);
    let pieces = [
        "(",
        "(",
        ")",
        ")",
        " ",
        "\n",
        "\t",
        "+",
        "-",
        "*",
        "/",
        "1",
        "15",
        "-7",
        "nan",
        "é",
        "日本",
        "\u{1F980}",
        "\u{a0}",
        "\u{2028}",
        "\u{85}",
        "\u{feff}",
        "\u{200b}",
        "\0",
        "\r\n",
        "\"",
        ";",
        "'",
        "a(b",
        ")(",
        "\u{3000}",
        "\u{0301}",
    ];
    let mut s = String::new();
    for _ in 0..n {
        if rng.pct(3) {
            // one long word, gap or run of parentheses
            let most = if n > 12 { 9 } else { 17 };
            let len = (1usize << rng.below(most)) + rng.below(3) - 1;
            let piece = *rng.pick(&["a", " ", "\n", "é", "日", "0", "1", "-", "a b ", "() "]);
            s.push_str(&piece.repeat(len));
        } else if rng.pct(6) {
            // any character at all
            let c = loop {
                if let Some(c) = char::from_u32(rng.below(0x11_0000) as u32) {
                    break c;
                }
            };
            s.push(c);
        } else {
            s.push_str(*rng.pick(&pieces));
        }
    }
    s
}

/// Is every parenthesis matched, reading from left to right?
fn balanced(s: &str) -> bool {
    let mut open = 0u64;
    for c in s.chars() {
        match c {
            '(' => open += 1,
            ')' if open == 0 => return false,
            ')' => open -= 1,
            _ => (),
        }
    }
    open == 0
}

fn check_text(cx: &mut Ctx, s: &str) -> R<sexp::Out> {
    let out = sexp::observe(s);
    ckeq!(cx, out.text, s, "text of the parsed tree");
    ckeq!(cx, out.pieces, s, "texts of all tokens");
    ckeq!(
        cx,
        out.range,
        (0, s.len() as u32),
        "range of the parsed tree"
    );
    ckeq!(
        cx,
        out.errors.is_empty(),
        balanced(s),
        "are there no errors in {:?}",
        clip(s, 300)
    );
    cx.add("bytes kept", s.len() as u64);
    Ok(out)
}

fn ws(rng: &mut Rng, must: bool) -> &'static str {
    *rng.pick(if must {
        &[" ", "\n", " \t ", "\u{3000}"]
    } else {
        &["", "", " ", "\n\n"]
    })
}

/// A well-formed expression and its value.
fn expr(rng: &mut Rng, depth: usize, out: &mut String) -> Option<i64> {
    if depth == 0 || rng.pct(30) {
        if rng.pct(8) {
            out.push_str(*rng.pick(&["nan", "x1", "12a", "é"]));
            return None;
        }
        let v = rng.below(200) as i64 - 60;
        let _ = write!(out, "{v}");
        return Some(v);
    }
    let op = *rng.pick(&['+', '-', '*', '/']);
    out.push('(');
    out.push_str(ws(rng, false));
    out.push(op);
    let mut args = Vec::new();
    for _ in 0..2 {
        let at = out.len();
        out.push_str(ws(rng, true));
        let v = expr(rng, depth - 1, out);
        if out[at..].trim_start().starts_with('(') && rng.pct(50) && at > 0 {
            // no space is needed before a parenthesis
            let rest = out[at..].trim_start().to_string();
            out.truncate(at);
            out.push_str(&rest);
        }
        args.push(v);
    }
    out.push_str(ws(rng, false));
    out.push(')');
    let (a, b) = (args[0]?, args[1]?);
    match op {
        '+' => a.checked_add(b),
        '-' => a.checked_sub(b),
        '*' => a.checked_mul(b),
        _ if b == 0 => None,
        _ => a.checked_div(b),
    }
}

fn sexp_case(cx: &mut Ctx, rng: &mut Rng) -> R {
    if rng.pct(50) {
        let s = random_text(rng);
        cx.sig(s.bytes().fold(1, |h, b| monlib::rng::mix(h ^ b as u64)));
        cx.case_trivial = s.is_empty();
        cx.desc(|| format!("text {s:?}"));
        check_text(cx, &s)?;
        cx.count("arbitrary texts");
    } else {
        let mut s = String::new();
        let mut want = Vec::new();
        let mut spans = Vec::new();
        for i in 0..rng.range(1, 4) {
            if i > 0 || rng.bool() {
                s.push_str(ws(rng, true));
            }
            let at = s.len();
            // depth 4 of values up to 200 stays far below the limits
            let depth = rng.below(4);
            want.push(expr(rng, depth, &mut s));
            spans.push(s[at..].to_string());
        }
        s.push_str(ws(rng, false));
        cx.sig(s.bytes().fold(2, |h, b| monlib::rng::mix(h ^ b as u64)));
        cx.desc(|| format!("expressions {s:?} = {want:?}"));
        let out = check_text(cx, &s)?;
        let got: Vec<String> = out.shape.iter().map(|it| it.1.clone()).collect();
        ckeq!(cx, got, spans, "expressions found in {:?}", clip(&s, 300));
        ckeq!(cx, sexp::values(&s), want, "values of {:?}", clip(&s, 300));
        cx.add("expressions evaluated", want.len() as u64);
    }
    Ok(())
}

/// The reference: split at the last operator of the loosest kind.
fn reference(toks: &[&String]) -> Shape {
    for ops in [["+", "-"], ["*", "/"]] {
        if let Some(i) = toks.iter().rposition(|it| ops.contains(&it.as_str())) {
            return Shape::Op(vec![
                reference(&toks[..i]),
                Shape::Leaf(toks[i].clone()),
                reference(&toks[i + 1..]),
            ]);
        }
    }
    Shape::Leaf(toks[0].clone())
}

fn math_case(cx: &mut Ctx, rng: &mut Rng) -> R {
    let long = if rng.pct(3) { 300 } else { 30 };
    let n = *rng.pick(&[1, 2, 3, 5, 9, 20, long]);
    let one = rng.pct(20);
    let mut toks: Vec<String> = Vec::new();
    for i in 0..n {
        if i > 0 {
            let op = if one { rng.below(2) * 2 } else { rng.below(4) };
            toks.push(["+", "-", "*", "/"][op].to_string());
        }
        let digits = if rng.pct(1) { 1 << rng.below(12) } else { 0 };
        toks.push(format!("{}{}", rng.below(1000), "7".repeat(digits)));
    }
    let mut all = Vec::new();
    let spaces = rng.below(3) * 40;
    for t in &toks {
        while rng.pct(spaces) {
            all.push(rng.pick(&[" ", "\n", "   "]).to_string());
        }
        all.push(t.clone());
    }
    while rng.pct(spaces) {
        all.push(" ".to_string());
    }
    cx.sig(
        all.concat()
            .bytes()
            .fold(3, |h, b| monlib::rng::mix(h ^ b as u64)),
    );
    cx.desc(|| format!("tokens {:?}", all.concat()));
    let (kept, shape) = math::run(&all);
    ckeq!(cx, kept, all, "tokens kept");
    let want = reference(&toks.iter().collect::<Vec<_>>());
    ckeq!(
        cx,
        shape,
        vec![want],
        "structure of {:?}",
        clip(&all.concat(), 300)
    );
    cx.add("tokens kept", all.len() as u64);
    Ok(())
}

fn case(cx: &mut Ctx, rng: &mut Rng) -> R {
    if rng.pct(55) {
        sexp_case(cx, rng)
    } else {
        math_case(cx, rng)
    }
}

/// Long inputs for the expression parser: wide ones, and ones that nest with every operator.
fn long_math(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    let n = if cx.tiny { 20 } else { 3000 };
    let mut toks = Vec::new();
    for i in 0..n {
        if i > 0 {
            let op = match which {
                0 => "*",
                1 => "-",
                _ => ["+", "*"][i % 2],
            };
            toks.push(op.to_string());
        }
        toks.push(if rng.bool() {
            i.to_string()
        } else {
            "1".to_string()
        });
    }
    let all: Vec<String> = toks
        .iter()
        .flat_map(|it| [it.clone(), " ".repeat(rng.below(2))])
        .filter(|it| !it.is_empty())
        .collect();
    let (kept, shape) = math::run(&all);
    ckeq!(cx, kept, all, "tokens kept");
    // the last operator of the loosest kind is at the top; its operands are not looked into any further
    let want = reference(&toks.iter().collect::<Vec<_>>());
    ck!(
        cx,
        shape == vec![want],
        "structure of {} terms, operators {}",
        n,
        which
    );
    cx.count("long expressions");
    cx.sig(which as u64 + 50);
    Ok(())
}

fn special(cx: &mut Ctx, rng: &mut Rng, which: usize) -> R {
    if which >= 9 {
        return long_math(cx, rng, which - 9);
    }
    let n = if cx.tiny { 20 } else { 1500 };
    let s = match which {
        // (time is quadratic in the depth)
        0 => "(".repeat(if cx.tiny { n } else { 10_000 }),
        1 => format!("{}x{}", "(".repeat(n), ")".repeat(n)),
        2 => ")".repeat(n),
        3 => "(+ 1 ".repeat(n / 3) + "0" + &")".repeat(n / 3),
        _ => (0..n * 10)
            .map(|_| *rng.pick(&["a ", "(b) ", "\n"]))
            .collect::<String>(),
    };
    check_text(cx, &s)?;
    if which == 3 {
        ckeq!(
            cx,
            sexp::values(&s),
            vec![Some((n / 3) as i64)],
            "value of a deep sum"
        );
    }
    cx.count("big texts");
    cx.sig(which as u64);
    Ok(())
}

static PROPS: &[Prop] = &[Prop {
    id: "C23",
    special: Some((12, special)),
    case,
}];

fn main() {
    std::process::exit(monlib::runner::main_with(PROPS))
}
