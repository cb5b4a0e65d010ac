//! Sources with something extreme about them: long lines, deep nesting, long
//! lists, many errors.  Mostly near powers of two and the language's limits.
use crate::engine::Src;
use crate::magic::magic;

const EDGES: [usize; 34] = [
    0, 1, 2, 3, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128,
    129, 130, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1024,
    1025,
];
const FAR: [usize; 12] = [
    2047, 2049, 4096, 4097, 8193, 16385, 32766, 32767, 32768, 32769, 40000,
    64000,
];

/// A size up to max.
pub fn size(src: &mut Src, max: usize) -> usize {
    let n = match src.weighted(&[6, 2, 2]) {
        0 => *src.pick(&EDGES),
        1 => src.range(0, max),
        2 if src.chance(1, 4) => {
            let n = *src.pick(&magic().numbers) as usize;
            (n.min(1 << 20) + src.idx(3)).saturating_sub(1)
        }
        _ => *src.pick(&FAR),
    };
    if n <= max {
        n
    } else {
        // Somewhere else below, often near a byte's limit.
        let n = *src.pick(&[250, 254, 255, 256, 257, 258, 260]);
        n.min(max)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Big {
    LongLine,
    DeepIndent,
    ManyLines,
    Nest,
    NestBlocks,
    NestLoops,
    NestFuns,
    Params,
    Args,
    Vars,
    Map,
    List,
    Chain,
    LongToken,
    LexErrors,
    SyntaxErrors,
    ScopeErrors,
}

pub const ALL: [Big; 17] = [
    Big::LongLine,
    Big::DeepIndent,
    Big::ManyLines,
    Big::Nest,
    Big::NestBlocks,
    Big::NestLoops,
    Big::NestFuns,
    Big::Params,
    Big::Args,
    Big::Vars,
    Big::Map,
    Big::List,
    Big::Chain,
    Big::LongToken,
    Big::LexErrors,
    Big::SyntaxErrors,
    Big::ScopeErrors,
];

/// Those of moderate depth if asked for little.
pub const SHALLOW: [Big; 16] = [
    Big::LongLine,
    Big::DeepIndent,
    Big::ManyLines,
    Big::Nest,
    Big::NestBlocks,
    Big::NestLoops,
    Big::NestFuns,
    Big::Params,
    Big::Args,
    Big::Vars,
    Big::Map,
    Big::List,
    Big::LongToken,
    Big::LexErrors,
    Big::SyntaxErrors,
    Big::ScopeErrors,
];

/// Statements to put at the far end of something.
const ENDS: [&str; 20] = [
    "a\n",
    "print a.b[c] (d)\n",
    "a b, c\n",
    "a = b = -c\n",
    "var v = 1\nv\n",
    "f(1, \"x\ny\", z)\n",
    "fun g(x)\n  return x\n",
    "class C < B\n  m()\n    this.x = super.m\n",
    "if (a) b\nelse c\n",
    "while (a) break\n",
    "a @ b\n",
    ")\n",
    "a +\n",
    "break\n",
    "return\n",
    "\"open",
    "var x = x2\nx\n",
    "{ var y = y\n}",
    "continue\n",
    "1 = 2\n",
];

fn end(src: &mut Src) -> &'static str {
    src.pick(&ENDS)
}

pub fn big(src: &mut Src, kinds: &[Big], deep: usize) -> (Big, String) {
    let k = *src.pick(kinds);
    // Sums nest too.
    let sums = if deep <= 50 { deep } else { 1025 };
    let s = match k {
        Big::LongLine => long_line(src, 64_000, sums),
        Big::DeepIndent => deep_indent(src, 64_000),
        Big::ManyLines => many_lines(src, 70_000, sums),
        Big::Nest => nest(src, deep),
        Big::NestBlocks => nest_blocks(src, deep, 0),
        Big::NestLoops => nest_blocks(src, deep, 1),
        Big::NestFuns => nest_blocks(src, deep, 2),
        Big::Params => params(src),
        Big::Args => args(src),
        Big::Vars => vars(src),
        Big::Map => map(src),
        Big::List => list(src),
        Big::Chain => chain(src),
        Big::LongToken => long_token(src),
        Big::LexErrors => lex_errors(src),
        Big::SyntaxErrors => syntax_errors(src),
        Big::ScopeErrors => scope_errors(src),
    };
    (k, s)
}

/// One line of up to n columns before its last statement's tokens.
pub fn long_line(src: &mut Src, max: usize, sums: usize) -> String {
    let n = size(src, max);
    let mut s = String::new();
    match src.below(6) {
        0 => {
            s.push('a');
            s.push_str(&" ".repeat(n));
            s.push_str("+ ");
        }
        1 => {
            for _ in 0..n.min(sums) {
                s.push_str("é + ");
            }
        }
        2 => {
            s.push('"');
            s.push_str(&src.pick(&["x", "日", "e\u{301}", "👩‍👩‍👧"]).repeat(n));
            s.push_str("\" + ");
        }
        3 => {
            s.push_str("print ");
            s.push_str(&"n".repeat(n + 1));
            s.push('.');
        }
        4 => {
            for i in 0..n.min(2000) {
                s.push_str(&format!("[{i}, a], "));
            }
            s.insert_str(0, "f ");
        }
        _ => {
            s.push_str(&" ".repeat(n));
        }
    }
    s.push_str(end(src));
    s
}

pub fn deep_indent(src: &mut Src, max: usize) -> String {
    let mut s = String::new();
    let n = src.range(1, 6);
    let mut at = 0usize;
    let mut levels = vec![0usize];
    for _ in 0..n {
        s.push_str(&" ".repeat(at));
        s.push_str(src.pick(&["if (a)\n", "while (b)\n", "fun f()\n"]));
        at = (at + 1 + size(src, max / 3)).min(max);
        if at == *levels.last().unwrap() {
            break;
        }
        levels.push(at);
    }
    let top = *levels.last().unwrap();
    s.push_str(&" ".repeat(top));
    s.push_str("a\n");
    for _ in 0..src.range(1, 4) {
        let i = src.idx(levels.len());
        let mut w = levels[i];
        levels.truncate(i + 1);
        if src.chance(1, 8) {
            // Off by one (or by a multiple of 256).
            w = match src.below(4) {
                0 => w + 1,
                1 => w.saturating_sub(1),
                2 => w + 256,
                _ => w % 256,
            };
        }
        s.push_str(&" ".repeat(w));
        s.push_str(src.pick(&["b\n", "print c\n", "break\n", "@\n"]));
    }
    s
}

pub fn many_lines(src: &mut Src, max: usize, sums: usize) -> String {
    let most = if src.chance(1, 3) { max } else { 1100 };
    let n = size(src, most);
    let nl = *src.pick(&["\n", "\n", "\r\n"]);
    let mut s = String::new();
    match src.below(6) {
        0 => s.push_str(&nl.repeat(n)),
        1 => s.push_str(&format!("  // é comment{nl}").repeat(n)),
        2 => s.push_str(&format!("a{nl}").repeat(n)),
        3 => {
            s.push('"');
            s.push_str(&format!("日x{nl}").repeat(n));
            s.push_str("\" + ");
        }
        4 => {
            s.push_str("a");
            s.push_str(&format!(" +{nl}  b").repeat(n.min(sums)));
            s.push_str(nl);
        }
        _ => {
            s.push_str("a ");
            s.push_str(&format!("\\{nl}  ").repeat(n));
            s.push_str("= ");
        }
    }
    s.push_str(end(src));
    s
}

/// Complete lines beyond which line numbers need more than 16 bits.
pub fn far_down(src: &mut Src) -> String {
    let n = match src.below(4) {
        0 => src.range(65_500, 65_600),
        1 => src.range(65_533, 65_538),
        2 => src.range(65_600, 67_000),
        _ => *src.pick(&[65_535, 65_536, 98_304, 131_071, 131_072]),
    };
    let nl = *src.pick(&["\n", "\n", "\r\n"]);
    let mut s = String::new();
    match src.below(7) {
        0 => s.push_str(&nl.repeat(n)),
        1 => s.push_str(&format!("  // é{nl}").repeat(n)),
        2 => s.push_str(&format!("a{nl}").repeat(n)),
        3 => {
            s.push('"');
            s.push_str(&format!("日{nl}").repeat(n - 1));
            s.push_str(&format!("\"{nl}"));
        }
        4 => {
            s.push_str("if (a)");
            s.push_str(&format!("{nl}  b").repeat(n));
            s.push_str(nl);
        }
        5 => {
            s.push_str("a ");
            s.push_str(&format!("\\{nl}  ").repeat(n - 1));
            s.push_str(&format!("= b{nl}"));
        }
        _ => {
            // Some of several kinds.
            let m = src.range(0, n);
            s.push_str(&format!("\"x{nl}y\"{nl}").repeat(m / 2));
            s.push_str(&format!(" {nl}").repeat(n - m / 2 * 2));
        }
    }
    s
}

/// Nested expressions.
pub fn nest(src: &mut Src, max: usize) -> String {
    let n = size(src, max);
    let (open, close, base) = *src.pick(&[
        ("(", ")", "a"),
        ("[", "]", "a"),
        ("{k: ", "}", "a"),
        ("-", "", "a"),
        ("!", "", "a"),
        ("f(", ")", "a"),
        ("f ", "", "a"),
        ("a[", "]", "0"),
        ("f(a, (", "))", "b"),
        ("a = ", "", "b"),
        ("a.b = ", "", "c"),
        ("a[0] = ", "", "c"),
        ("k: ", "", "a"),
        ("fun (x) { return ", "\n}", "x"),
        ("fun () { var v = ", "\nv\n}", "v0"),
        ("a and (b or ", ")", "c"),
        ("1 + (2 * ", ")", "3"),
    ]);
    let mut s = String::new();
    s.push_str(src.pick(&["", "print ", "var v = ", "return ", "x = "]));
    if open == "k: " {
        s.push('(');
    }
    s.push_str(&open.repeat(n));
    s.push_str(base);
    s.push_str(&close.repeat(n));
    if open == "k: " {
        s.push(')');
    }
    // Sometimes not closed, or closed too often.
    match src.below(8) {
        0 => {
            s.pop();
        }
        1 => s.push(')'),
        _ => (),
    }
    s.push('\n');
    if src.chance(1, 2) {
        s.push_str(end(src));
    }
    s
}

/// Nested statements with bodies.
pub fn nest_blocks(src: &mut Src, max: usize, only: usize) -> String {
    let n = size(src, max);
    let mixed = src.chance(1, 2);
    let heads: &[&str] = match only {
        1 => &["while (a)", "for (;;)", "for (var i = 0; i < n; i = i + 1)", "if (a)"],
        2 => &["fun f(a)", "fun g()", "while (b)", "if (x)"],
        _ => &[
            "if (a)",
            "while (b)",
            "for (var i = i0; i; i = i + 1)",
            "fun f(a, b)",
            "{",
            "if (a) {} else",
        ],
    };
    let kind = src.idx(heads.len());
    let brace_all = src.chance(1, 3);
    let decls = src.chance(1, 3);
    let mut s = String::new();
    let mut ind = 0;
    let mut closers: Vec<bool> = Vec::new();
    for d in 0..n {
        let i = if mixed { src.idx(heads.len()) } else { kind };
        s.push_str(&" ".repeat(ind));
        let h: &str = heads[i];
        let brace = brace_all || h == "{";
        s.push_str(h);
        if h == "{" {
            s.push('\n');
        } else if brace {
            s.push_str(" {\n");
        } else {
            s.push('\n');
            ind += 1;
        }
        closers.push(brace);
        if decls {
            s.push_str(&" ".repeat(ind));
            s.push_str(&format!("var v{} = w\n", d % 7));
        }
    }
    // Something at the bottom.
    s.push_str(&" ".repeat(ind));
    s.push_str(src.pick(&[
        "a = v0\n",
        "break\n",
        "continue\n",
        "return a\n",
        "var a = b\n",
        "var a = a\n",
        "print i\n",
        "@\n",
        ")\n",
        "print v3 + top\n",
    ]));
    let back = src.below(3);
    for brace in closers.iter().rev() {
        if *brace {
            s.push_str(&" ".repeat(ind));
            s.push_str("}\\\n");
        } else {
            ind -= 1;
            if back > 0 {
                s.push_str(&" ".repeat(ind));
                s.push_str(if back == 1 { "b\n" } else { "v1 = c\n" });
            }
        }
    }
    s.push_str(end(src));
    s
}

fn near_255(src: &mut Src) -> usize {
    match src.weighted(&[4, 2, 1]) {
        0 => *src.pick(&[250, 253, 254, 255, 256, 257, 258]),
        1 => size(src, 520),
        _ => *src.pick(&[127, 128, 511, 512]),
    }
}

fn commas(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect::<Vec<_>>().join(", ")
}

pub fn params(src: &mut Src) -> String {
    let n = near_255(src);
    let p = commas(n, |i| format!("p{i}"));
    let used = if n > 0 {
        format!("p{} = p0", src.idx(n))
    } else {
        "q".to_owned()
    };
    let mut s = match src.below(6) {
        0 => format!("fun f({p})\n  {used}\n"),
        1 => format!("fun f({p}) {{ {used}\n}} "),
        2 => format!("class A\n  m({p})\n    {used}\n  n() {{}} "),
        3 => format!("class A {{ class m({p}) {{ {used}\n }} init({p}) {{}} }} "),
        4 => format!("var f = fun ({p}) {{ {used}\n}}\n"),
        _ => format!("print f(fun ({p}) {{ {used}\n }})\n"),
    };
    s.push_str(end(src));
    s
}

pub fn args(src: &mut Src) -> String {
    let n = near_255(src).max(1);
    let kind = src.below(4);
    let mut a = commas(n, |i| match kind {
        0 => format!("{i}"),
        1 => format!("a{}", i % 9),
        2 => format!("\"s{i}\""),
        _ => format!("-{i} + x"),
    });
    if kind == 3 {
        a.insert_str(0, "y");
    }
    let mut s = match src.below(8) {
        0 => format!("f({a})\n"),
        1 => format!("f {a}\n"),
        2 => format!("print a.b({a})\n"),
        3 => format!("print a.b {a}\n"),
        4 => format!("super.m({a})\n"),
        5 => format!("f (1) ({a}), 2\n"),
        6 => format!("return g[0] {a}\n"),
        _ => format!("f()({a})({a})\n"),
    };
    s.push_str(end(src));
    s
}

/// Many variables in one scope.
pub fn vars(src: &mut Src) -> String {
    let n = match src.weighted(&[3, 3, 1]) {
        0 => *src.pick(&[250, 253, 254, 255, 256, 257, 258, 300]),
        1 => size(src, 255),
        _ => *src.pick(&[126, 127, 128, 129, 130]),
    };
    let how = src.below(9);
    let mixed = src.chance(1, 3);
    let mut s = String::new();
    if how == 8 {
        // All on one line.
        for i in 0..n {
            let kind = if mixed { *src.pick(&["fun", "class"]) } else { "fun" };
            let args = if kind == "fun" { "()" } else { "" };
            s.push_str(&format!("{kind} v{i}{args} {{}} "));
        }
        s.push_str("print v0\n");
        return s;
    }
    let (head, ind) = match how {
        0..=2 => ("", ""),
        3 => ("fun f()\n", "  "),
        4 => ("if (c)\n", "  "),
        5 => ("{\n", ""),
        6 => ("class A\n  m(p0, p1)\n", "    "),
        _ => ("for (var p0 = 0; p0; )\n", "  "),
    };
    s.push_str(head);
    for i in 0..n {
        let k = if mixed { src.below(5) } else { 0 };
        match k {
            1 => s.push_str(&format!("{ind}fun v{i}() {{}}\\\n")),
            2 => s.push_str(&format!("{ind}class v{i} {{}}\\\n")),
            3 if how < 3 => s.push_str(&format!("v{i} = 1\n")),
            4 if i > 0 => s.push_str(&format!("{ind}var v{i} = v{}\n", src.idx(i))),
            _ => s.push_str(&format!("{ind}var v{i}\n")),
        }
    }
    for _ in 0..src.range(1, 6) {
        if n > 0 {
            let i = src.idx(n);
            s.push_str(&format!("{ind}print v{i}\n"));
            if src.chance(1, 3) {
                s.push_str(&format!("{ind}{{ v{i} = v{}\n}}\\\n", n - 1));
            }
        }
    }
    if how == 5 {
        s.push_str("}\\\n");
    }
    if src.chance(1, 2) {
        s.push_str("print v0\n");
    }
    s
}

/// Different names, of all lengths and in any order.
pub fn keys(src: &mut Src, n: usize) -> Vec<String> {
    let kind = src.below(5);
    let mut v: Vec<String> = (0..n)
        .map(|i| match kind {
            0 => format!("k{i}"),
            1 => format!("k{:04}", n - i),
            2 => format!("{}{i}", "ké_".repeat((i * 7 + n) % 4) + "z"),
            _ => {
                let a = *src.pick(&["a", "B", "_", "zz", "key", "é", "変数", "Zebra_"]);
                format!("{a}{}_{i}", src.below(1000))
            }
        })
        .collect();
    if kind == 4 || src.chance(1, 2) {
        for i in (1..n).rev() {
            let j = src.idx(i + 1);
            v.swap(i, j);
        }
    }
    v
}

pub fn map(src: &mut Src) -> String {
    let n = size(src, 700);
    // Now and then one key is there twice.
    let dup = if n > 1 && src.chance(1, 3) {
        let b = src.range(1, n - 1);
        let a = src.idx(b);
        Some((a, b))
    } else {
        None
    };
    let quoted = src.below(3);
    let names = keys(src, n);
    let key = |src: &mut Src, i: usize| {
        let i = match dup {
            Some((a, b)) if i == b => a,
            _ => i,
        };
        if quoted == 1 || quoted == 2 && src.chance(1, 2) {
            format!("\"{}\"", names[i])
        } else {
            names[i].clone()
        }
    };
    let entries: Vec<String> =
        (0..n).map(|i| format!("{}: {}", key(src, i), i % 100)).collect();
    let mut s = match src.below(6) {
        0 => format!("var m = {{{}}}\n", entries.join(", ")),
        1 => format!("print {{{},}}\n", entries.join(",\n  ")),
        2 => format!("var m =\n  {}\n", entries.join("\n  ")),
        3 => format!("var m = {}\n", entries.join(", ")),
        4 => format!("f {}\n", entries.join(", ")),
        _ => format!("print [{}]\n", entries.join(", ")),
    };
    if n == 0 {
        s = "var m = {}\n".to_owned();
    }
    s.push_str(end(src));
    s
}

pub fn list(src: &mut Src) -> String {
    let n = size(src, 3000);
    let mut s = match src.below(7) {
        0 => format!("print [{}]\n", commas(n, |i| format!("{i}"))),
        1 => (0..n).map(|i| format!("print {i}\n")).collect(),
        2 => {
            let b: String = (0..n).map(|i| format!("  a{}(b)\n", i % 5)).collect();
            format!("while (c)\n{b}  break\n")
        }
        3 => {
            let b: String =
                (0..n.min(600)).map(|i| format!("  m{i}(a)\n    a\n")).collect();
            format!("class A\n{b}  last() {{}} ")
        }
        4 => format!("print [{},]\n", vec!["[a, b]"; n + 1].join(",\n ")),
        5 => (0..n).map(|i| format!("if (a)\n  b\nelse\n  {i}\n")).collect(),
        _ => (0..n).map(|i| format!("fun f{}()\n  {i}\n", i % 200)).collect(),
    };
    s.push_str(end(src));
    s
}

pub fn chain(src: &mut Src) -> String {
    let n = size(src, 600);
    let mut s = match src.below(9) {
        0 => format!("print a{}\n", " + b".repeat(n)),
        1 => {
            let op = src.pick(&["and", "or", "==", "!=", "<", "<=", ">", ">=", "-", "*", "/"]);
            format!("print a{}\n", format!(" {op} b").repeat(n))
        }
        2 => format!("a{}\n", ".b".repeat(n)),
        3 => format!("f{}\n", "()".repeat(n)),
        4 => format!("a{} = 1\n", "[0]".repeat(n)),
        5 => format!("f{}\n", " (a)".repeat(n)),
        6 => {
            let mut s = "if (a) b\n".to_owned();
            for i in 0..n {
                s.push_str(&format!("else if (a{}) {i}\n", i % 3));
            }
            s.push_str("else c\n");
            s
        }
        7 => {
            let mut s = String::from("if (a)\n  b\n");
            for i in 0..n {
                s.push_str(&format!("else if (a)\n  {i}\n"));
            }
            s
        }
        _ => {
            let ops = [" + ", " - ", " * ", " / ", " < ", " == ", " and ", " or "];
            let mut s = String::from("print a");
            for _ in 0..n {
                s.push_str(src.pick(&ops));
                s.push_str(src.pick(&["a", "1", "-b", "!c", "d.e", "f(g)"]));
            }
            s.push('\n');
            s
        }
    };
    s.push_str(end(src));
    s
}

pub fn long_token(src: &mut Src) -> String {
    let n = size(src, 60_000) + 1;
    let mut s = String::new();
    match src.below(8) {
        0 => s.push_str(&src.pick(&["a", "é", "変", "_"]).repeat(n)),
        1 => {
            s.push_str(src.pick(&["while", "class", "nil", "super"]));
            s.push_str(&"x".repeat(n));
        }
        2 => {
            s.push('1');
            s.push_str(&"0".repeat(n.min(400)));
        }
        3 => {
            s.push_str("0.");
            s.push_str(&"0".repeat(n.min(400)));
            s.push('7');
        }
        4 => {
            s.push('"');
            s.push_str(&src.pick(&["x", "\n", "日", "\r\n", "//", "e\u{301}"]).repeat(n));
            s.push('"');
        }
        5 => {
            s.push_str("a //");
            s.push_str(&" c".repeat(n));
        }
        6 => {
            s.push_str("0.");
            for i in 0..n.min(900) {
                s.push((b'0' + ((i * 7 + n) % 10) as u8) as char);
            }
        }
        _ => {
            for i in 0..n.min(900) {
                s.push((b'0' + ((i * 3 + n) % 10) as u8) as char);
            }
        }
    }
    s.push('\n');
    s.push_str(end(src));
    s
}

pub fn lex_errors(src: &mut Src) -> String {
    let n = size(src, 3000);
    let mut s = String::new();
    let kind = src.below(5);
    for i in 0..n {
        match if kind == 4 { i as u64 % 4 } else { kind } {
            0 => s.push_str(src.pick(&["@", "@ ", "# a ", "$\n"])),
            1 => s.push_str(src.pick(&["\t", "a\tb\n"])),
            2 => s.push_str("\\ a\n"),
            _ => s.push_str("if (a)\n    b\n  c\n"),
        }
    }
    s.push('\n');
    s.push_str(end(src));
    s
}

pub fn syntax_errors(src: &mut Src) -> String {
    let n = size(src, 1500);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(src.pick(&[
            "var = 1\n",
            "print\n",
            "if a\n",
            "fun ()\n",
            "class 1\n",
            "return )\n",
            "while (\n",
        ]));
    }
    s.push_str(end(src));
    s
}

pub fn scope_errors(src: &mut Src) -> String {
    let n = size(src, 1500);
    let mut s = String::new();
    for i in 0..n {
        s.push_str(src.pick(&[
            "return 1\n",
            "print this\n",
            "super.a\n",
            "fun f(a, a) {} ",
            "{ var a = a\n} ",
            "class A < A {} ",
            "class B { init() { return 1\n } } ",
            "while (a) { fun g() { var b\nvar b\n } } ",
        ]));
        if i % 3 == 0 {
            s.push_str("a\n");
        }
    }
    s.push_str(end(src));
    s
}
