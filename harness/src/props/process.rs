//! C15 REPL sessions, C16 the command, C17 the JavaScript API.
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

use serde::Deserialize;
use serde_json::{json, Value};

use super::common::*;
use super::robust::broken_line;
use crate::big;
use crate::engine::{clip, guard, CaseResult, Ctx, Prop, Src, Sub};
use crate::gen::{self, Cfg, Gen};
use crate::refresolve;
use crate::render::{render, Choice, Style};
use crate::soup;
use crate::sut;
use crate::tree::{self, Ann, BOp, FunD, LOp, Loc, UOp, E, FK, S};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            rule: "Sessions of up to a dozen lines (declarations, uses, redefinitions; rejected lines of every kind that declare and use names before they fail) are fed to one resolver; each line has to be accepted exactly if it is after the accepted lines before it as one program, and to resolve to the same (by a fresh resolver and by an independent one). Sessions of the real command have to print what the library says for each line, and end. Non-trivial: at least three lines, one accepted.",
            assumptions: &["a session is given up once it holds exactly 256 globals (not specified)"],
            subs: vec![
                Sub { name: "sessions", quick: 100_000, thorough: 6_000_000, run: c15_sessions },
                Sub { name: "many globals", quick: 1_200, thorough: 60_000, run: c15_many },
                Sub { name: "command", quick: 1_500, thorough: 60_000, run: c15_command },
            ],
            guided: false,
            known: vec![],
        },
        Prop {
            id: "C16",
            rule: "The command is run on files of all kinds (programs, mutations, soups, extremes, empty, missing, not UTF-8); output, error output and exit status have to be what the library's result for the text says. Non-trivial: at least three characters, or no such file.",
            assumptions: &["nesting is kept below 60 levels here: the output's size grows with its square"],
            subs: vec![
                Sub { name: "files", quick: 6_000, thorough: 250_000, run: c16_files },
                Sub { name: "extremes", quick: 160, thorough: 6_000, run: c16_big },
                Sub { name: "unreadable files", quick: 300, thorough: 6_000, run: c16_unreadable },
            ],
            guided: false,
            known: vec![],
        },
        Prop {
            id: "C17",
            rule: "parseString of the WebAssembly build is called in node on sources of all kinds; the value, converted with the types of its parts, has to be that of the native library's resolved statements, or the thrown error's message has to list all of its errors in order. Non-trivial: at least three characters.",
            assumptions: &["the glue between node and the WebAssembly module is hand-written (wasm-bindgen's own cannot be generated offline)", "nesting is kept below 40 levels: the WebAssembly stack is small"],
            subs: vec![
                Sub { name: "programs", quick: 12_000, thorough: 500_000, run: c17_programs },
                Sub { name: "any sources", quick: 12_000, thorough: 500_000, run: c17_any },
                Sub { name: "extremes", quick: 160, thorough: 8_000, run: c17_big },
            ],
            guided: false,
            known: vec![],
        },
    ]
}

// --------------------------------------------------------------- processes

fn root() -> PathBuf {
    PathBuf::from(std::env::var("WSVERIF_ROOT").unwrap_or("/verif".into()))
}

const MOST: u64 = 64 << 20;

/// Removes the limit on memory set for this process, and sets one on time.
unsafe fn child_limits(cpu_s: u64) {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_AS, &mut l);
        l.rlim_cur = l.rlim_max;
        libc::setrlimit(libc::RLIMIT_AS, &l);
        if cpu_s > 0 {
            let l = libc::rlimit {
                rlim_cur: cpu_s,
                rlim_max: cpu_s + 5,
            };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
        }
        // Ends with this process.
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

struct Run {
    code: Option<i32>,
    signal: Option<i32>,
    out: Vec<u8>,
    err: Vec<u8>,
}

/// Runs the command with an end to its time and output.
fn command(args: &[&std::ffi::OsStr], input: &[u8]) -> Run {
    let mut c = Command::new(root().join("build/cli/debug/whitespace"));
    c.args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .env_remove("RUST_BACKTRACE");
    unsafe {
        c.pre_exec(|| {
            child_limits(20);
            Ok(())
        });
    }
    let mut p = c.spawn().expect("the command");
    let mut stdin = p.stdin.take().unwrap();
    let out = p.stdout.take().unwrap();
    let err = p.stderr.take().unwrap();
    let (out, err) = std::thread::scope(|s| {
        s.spawn(move || {
            let _ = stdin.write_all(input);
        });
        let e = s.spawn(move || {
            let mut v = Vec::new();
            let _ = err.take(MOST).read_to_end(&mut v);
            v
        });
        let mut v = Vec::new();
        let _ = out.take(MOST).read_to_end(&mut v);
        (v, e.join().unwrap_or_default())
    });
    let st = p.wait().expect("wait");
    Run {
        code: st.code(),
        signal: st.signal(),
        out,
        err,
    }
}

fn ended(r: &Run) -> String {
    match (r.code, r.signal) {
        (Some(c), _) => format!("exited with {c}"),
        (_, Some(s)) => format!("was ended by signal {s}"),
        _ => "ended".into(),
    }
}

/// What the command prints for an error.
fn error_lines(e: &whitespace::error::ParseError) -> String {
    let mut s = String::new();
    for c in &e.causes {
        let (l, k) = (c.source_loc.line, c.source_loc.column);
        match &c.token {
            Some(t) => s.push_str(&format!("[line {l}:{k}] Error at '{t}': {}\n", c.message)),
            None => s.push_str(&format!("[line {l}:{k}] Error: {}\n", c.message)),
        }
    }
    s
}

type Front = Result<Vec<whitespace::ast::Stmt>, whitespace::error::ParseError>;

fn library(text: &str) -> Res<Front> {
    guard("the library", || {
        whitespace::parser::parse(text)
            .and_then(whitespace::resolver::resolve)
            .map(|c| c.statements)
    })
}

fn differ(what: &str, want: &str, got: &[u8]) -> CaseResult {
    if got == want.as_bytes() {
        return Ok(());
    }
    let i = got
        .iter()
        .zip(want.as_bytes())
        .take_while(|(a, b)| a == b)
        .count();
    let from = |b: &[u8]| {
        let lo = i.saturating_sub(40).min(b.len());
        clip(&String::from_utf8_lossy(&b[lo..(i + 200).min(b.len())]), 300)
    };
    Err(format!(
        "{what} differs at byte {i}: expected …{:?}, got …{:?}",
        from(want.as_bytes()),
        from(got)
    ))
}

// -------------------------------------------------------------------- C15

/// Lines that are rejected, after introducing names (N is one).
const REJECTED: [&str; 34] = [
    "print N +",
    "var N = @",
    "var N = ",
    "fun N() {} print this",
    "fun N() {} return",
    "class N {} class M < M {}",
    "class N {} print super.x",
    "var N = N",
    "var N = f(M, N)",
    "fun N(a, a) {}",
    "var N = fun (x) {} M",
    "if (N) var M = M",
    "while (N) { var N = fun () {}\nvar N = 1\n}",
    "if (N)\n  var M = N\n  var M = M",
    "fun N(x)\n  var y = x\n  var y = M",
    "fun N(x)\n  fun y()\n    print super.z\n  M",
    "class N\n  init(x)\n    return M",
    "class N < M\n  m()\n    var q = super.x\n    var q = N",
    "for (var N = M; N; N) var N = N",
    "{ var N = M\nreturn M\n}",
    "print fun (N) { var N = M\n}",
    "M = N\nreturn",
    "var N = M\nvar M = this",
    "M = N\nprint this\nN = M\nprint super.x",
    "N(M\n",
    "\"N",
    "N\tM",
    "if (N)\n    M\n  N",
    "break",
    "while (N) fun M() { break\n}",
    "class N { m() { return super.x\n} }",
    "fun N() { fun M() { fun N() { print super.x\n}\n}\n}",
    "while (N) while (M) print this",
    "if (N) { while (M) { var N = 1\nvar N = M\n} }",
];

/// Lines that are accepted.
const ACCEPTED: [&str; 24] = [
    "var N = M",
    "var N",
    "N = M",
    "print N + M",
    "N",
    "fun N(x) {}",
    "class N {}",
    "class N < M {}",
    "N M, x",
    "var N = fun (x) {}",
    "fun N(x)\n  return N(M, x)\n",
    "class N\n  m(x)\n    return this.N + M\n",
    "class N < M\n  init(x)\n    super.init(x, N)\n",
    "for (var N = M; N; N = N + M) print N",
    "if (N)\n  var M = N\n  print M\nelse\n  N = M\n",
    "{ var N = M\nM = N\n}",
    "var N = fun (M) { return N = M\n}\n",
    "N = fun () { var M = N\nprint M\n}\n",
    "while (N) M = N\nM",
    "var N = a: M, b: N2",
    "fun N() {} fun M() {}",
    "var N = M\nvar M = N\nM = N",
    "",
    "// N",
];

const POOL: [&str; 7] = ["a", "b", "c", "x", "y", "z", "fooé"];

fn filled(src: &mut Src, t: &str) -> String {
    let mut s = String::new();
    let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
    let cs: Vec<char> = t.chars().collect();
    let (n, m) = (*src.pick(&POOL), *src.pick(&POOL));
    for (i, c) in cs.iter().enumerate() {
        let alone = !word(i.checked_sub(1).map(|j| cs[j])) && !word(cs.get(i + 1).copied());
        match c {
            'N' if alone => s.push_str(n),
            'M' if alone => s.push_str(m),
            c => s.push(*c),
        }
    }
    s
}

fn session_line(src: &mut Src, one: bool) -> String {
    let t = match src.weighted(&[5, 4, 2, 1, 1]) {
        0 => {
            let t = *src.pick(&ACCEPTED);
            filled(src, t)
        }
        1 => {
            let t = *src.pick(&REJECTED);
            filled(src, t)
        }
        2 => {
            let mut cfg = Cfg::new(12);
            cfg.mischief = *src.pick(&[0, 0, 200]);
            cfg.plain_names = true;
            cfg.pool = 5;
            let p = gen::program(src, cfg);
            let st = Style::random(src);
            render(src, &p, &st).text
        }
        3 => broken_line(src).unwrap_or_default(),
        _ => soup::any(src),
    };
    if one && t.contains('\n') {
        let t = t.trim_end().to_owned();
        if t.contains('\n') {
            let t = *src.pick(&["var N = M", "N = M", "print N", "return N", "N M"]);
            return filled(src, t);
        }
        return t;
    }
    t
}

fn c15_sessions(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(1, 12);
    let lines: Vec<String> = (0..n).map(|_| session_line(src, false)).collect();
    session(ctx, &lines)
}

fn session(ctx: &mut Ctx, lines: &[String]) -> CaseResult {
    for l in lines.iter().take(60) {
        ctx.input("line", l);
    }
    let mut session = whitespace::resolver::Resolver::new();
    // All accepted lines as one program.
    let mut program: Vec<whitespace::ast::Stmt> = Vec::new();
    let mut model = refresolve::Resolver::default();
    let (mut accepted, mut rejected) = (0, 0);
    for (i, l) in lines.iter().enumerate() {
        let parsed = match sut::parse_repl_raw(l)? {
            Ok(p) => p,
            Err(_) => {
                rejected += 1;
                ctx.label("lines with syntax errors");
                continue;
            }
        };
        let mut whole = program.clone();
        whole.extend(parsed.clone());
        let mut want = tree::from_lib(&parsed, false);
        let before = model.clone();
        let by_model = model.resolve(&mut want);
        if model.brim {
            ctx.label("given up at 256 globals");
            break;
        }
        let got = sut::resolve_with(&mut session, parsed)?;
        let fresh = sut::resolve(whole.clone())?;
        let k = program.len();
        match (got, fresh) {
            (Ok(t), Ok(w)) => {
                if t[..] != w[k..] {
                    return Err(format!(
                        "line {}: {}",
                        i + 1,
                        tree::diff("resolved as one program and in the session", &w[k..].to_vec(), &t)
                    ));
                }
                match by_model {
                    Ok(()) if want == t => (),
                    Ok(()) => {
                        return Err(format!(
                            "line {}: {}",
                            i + 1,
                            tree::diff("resolved trees", &want, &t)
                        ))
                    }
                    Err(o) => {
                        return Err(format!("line {}: accepted; offences {o:?}", i + 1))
                    }
                }
                program = whole;
                accepted += 1;
            }
            (Err(c), Err(d)) => {
                ctx.label("lines with scoping errors");
                rejected += 1;
                if locs(&c) != locs(&d) {
                    return Err(format!(
                        "line {}: errors in the session [{}], as one program [{}]",
                        i + 1,
                        brief(&c),
                        brief(&d)
                    ));
                }
                match by_model {
                    Ok(()) => {
                        return Err(format!("line {}: rejected: {}", i + 1, brief(&c)))
                    }
                    Err(o) => same_offences(&c, &o).map_err(|e| format!("line {}: {e}", i + 1))?,
                }
                model = before;
            }
            (Ok(_), Err(c)) => {
                return Err(format!(
                    "line {}: accepted in the session, but as one program: {}",
                    i + 1,
                    brief(&c)
                ))
            }
            (Err(c), Ok(_)) => {
                return Err(format!(
                    "line {}: accepted as one program, but in the session: {}",
                    i + 1,
                    brief(&c)
                ))
            }
        }
    }
    if accepted > 0 && rejected > 0 {
        ctx.label("accepted and rejected lines");
    }
    ctx.case(&lines.join("\u{1}"), lines.len() > 2 && accepted > 0);
    Ok(())
}

/// Sessions that come close to as many globals as there are slots.
fn c15_many(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = *src.pick(&[100, 200, 250, 252, 253, 254, 255]);
    let mut lines = Vec::new();
    let mut next = 0;
    while next < n {
        let k = (1 + src.idx(30)).min(n - next);
        let mut l = String::new();
        for i in next..next + k {
            match src.below(4) {
                0 => l.push_str(&format!("g{i}\n")),
                1 => l.push_str(&format!("fun g{i}(x)\n  x\n")),
                _ => l.push_str(&format!("var g{i}\n")),
            }
        }
        next += k;
        // Sometimes rejected, and then again without the fault.
        if src.chance(1, 4) {
            lines.push(format!("{l}{}", src.pick(&["return\n", "print this\n", "h = h\nclass h < h {} ", ")\n"])));
        }
        lines.push(l);
        if src.chance(1, 3) {
            lines.push(format!("print g{} + g{}", src.idx(next), src.idx(next)));
        }
    }
    // One too many (more than one, to be sure).
    for _ in 0..src.range(1, 4) {
        lines.push(match src.below(4) {
            0 => "a1\nb1\nc1\nd1\ne1\nf1\ni1\n".to_owned(),
            1 => format!("var g{}", src.idx(n)),
            2 => (300..600).map(|i| format!("g{i}\n")).collect(),
            _ => format!("print g{}", src.idx(n)),
        });
    }
    session(ctx, &lines)
}

fn c15_command(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(0, 10);
    let lines: Vec<String> = (0..n).map(|_| session_line(src, true)).collect();
    let mut input = String::new();
    for l in &lines {
        input.push_str(l);
        input.push_str(src.pick(&["\n", "\n", "\n", "\r\n"]));
    }
    // The last line may not be ended.
    if src.chance(1, 3) && input.ends_with('\n') {
        input.pop();
    }
    ctx.input("input", &input);
    ctx.case(&input, n > 2);
    let (mut out, mut err) = (String::new(), String::new());
    let mut r = whitespace::resolver::Resolver::new();
    let mut accepted = 0;
    for l in input.split_inclusive('\n') {
        out.push_str("> ");
        let result = guard("the library", || {
            whitespace::parser::parse_repl_line(l).and_then(|t| r.resolve(t))
        })?;
        match result {
            Ok(c) => {
                accepted += 1;
                out.push_str(&format!("{:#?}\n", c.statements));
            }
            Err(e) => err.push_str(&error_lines(&e)),
        }
    }
    out.push_str("> ");
    if accepted > 0 && !err.is_empty() {
        ctx.label("accepted and rejected lines");
    }
    let got = command(&[], input.as_bytes());
    if got.out.len() as u64 >= MOST || got.signal == Some(libc::SIGXCPU) {
        return Err("the REPL does not end at the end of its input".into());
    }
    differ("the output", &out, &got.out)?;
    differ("the error output", &err, &got.err)?;
    if got.code != Some(0) {
        return Err(format!("the REPL {}", ended(&got)));
    }
    Ok(())
}

// -------------------------------------------------------------------- C16

static FILES: AtomicU64 = AtomicU64::new(0);

struct Scratch(PathBuf);

impl Scratch {
    fn new(src: &mut Src) -> Scratch {
        let n = FILES.fetch_add(1, Ordering::Relaxed);
        let name = *src.pick(&["script.ws", "a b", "é日.coffee", "x"]);
        Scratch(std::env::temp_dir().join(format!("wsverif-{}-{n}-{name}", std::process::id())))
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn on_file(src: &mut Src, ctx: &mut Ctx, text: &str) -> CaseResult {
    let want = library(text)?;
    let f = Scratch::new(src);
    std::fs::write(&f.0, text).expect("scratch file");
    let got = command(&[f.0.as_os_str()], b"var input = 1\n");
    match want {
        Ok(t) => {
            ctx.label("accepted");
            if got.code != Some(0) {
                return Err(format!(
                    "the library accepts it, but the command {}",
                    ended(&got)
                ));
            }
            differ("the output", &format!("{t:#?}\n"), &got.out)?;
            differ("the error output", "", &got.err)
        }
        Err(e) => {
            ctx.label(if e.causes.len() > 1 { "several errors" } else { "one error" });
            if got.code != Some(65) {
                return Err(format!(
                    "the library rejects it, but the command {}",
                    ended(&got)
                ));
            }
            differ("the output", "", &got.out)?;
            differ("the error output", &error_lines(&e), &got.err)
        }
    }
}

fn mixed(src: &mut Src) -> String {
    match src.below(6) {
        0 | 1 => {
            let f = fuel(src);
            let mut cfg = Cfg::new(f);
            cfg.mischief = *src.pick(&[0, 100, 300]);
            let p = gen::program(src, cfg);
            let st = Style::random(src);
            render(src, &p, &st).text
        }
        2 => {
            // Several broken statements.
            let n = src.range(1, 5);
            (0..n)
                .map(|_| broken_line(src).unwrap_or("print a\n".into()))
                .collect()
        }
        _ => soup::any(src),
    }
}

fn c16_files(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let s = mixed(src);
    ctx.input("file", &s);
    ctx.case(&s, s.chars().count() > 2);
    on_file(src, ctx, &s)
}

fn c16_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (_, s) = big::big(src, &big::SHALLOW, 50);
    ctx.input("file", &s);
    ctx.case(&s, true);
    on_file(src, ctx, &s)
}

fn c16_unreadable(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = Scratch::new(src);
    let what = if src.chance(1, 4) {
        let _ = std::fs::remove_file(&f.0);
        ctx.case(&format!("missing {}", src.log.len()), true);
        "a missing file"
    } else {
        let t = soup::program_text(src, 10).text;
        let at = src.idx(t.len() + 1);
        let mut b = t.into_bytes();
        let bad: &[u8] = src.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xc0\x80", b"\xf5\x80\x80\x80", b"\x80"]);
        b.splice(at..at, bad.iter().copied());
        if std::str::from_utf8(&b).is_ok() {
            ctx.label("UTF-8 after all");
            return Ok(());
        }
        std::fs::write(&f.0, &b).expect("scratch file");
        ctx.case(&String::from_utf8_lossy(&b), true);
        "a file that is not UTF-8"
    };
    let got = command(&[f.0.as_os_str()], b"");
    if !got.out.is_empty() {
        return Err(format!("output for {what}: {:?}", String::from_utf8_lossy(&got.out)));
    }
    if got.code == Some(0) {
        return Err(format!("the command succeeds on {what}"));
    }
    if got.signal.is_some() {
        return Err(format!("on {what}, the command {}", ended(&got)));
    }
    Ok(())
}

// -------------------------------------------------------------------- C17

struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Node {
    fn start() -> Node {
        let r = root();
        let mut c = Command::new("node");
        c.arg(r.join("js/server.mjs"))
            .arg(r.join("build/wasm/wasm32-unknown-unknown/debug/whitespace.wasm"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null());
        unsafe {
            c.pre_exec(|| {
                child_limits(0);
                Ok(())
            });
        }
        let mut child = c.spawn().expect("node");
        Node {
            to: child.stdin.take().unwrap(),
            from: BufReader::new(child.stdout.take().unwrap()),
            child,
        }
    }

    /// None if it does not answer.
    fn ask(&mut self, text: &str, wait_s: i32) -> Option<Value> {
        use std::os::fd::AsRawFd;
        // All ASCII: node takes some other characters for line ends.
        let mut line = String::from("\"");
        for u in text.encode_utf16() {
            match u {
                0x20..=0x7e if u != 0x22 && u != 0x5c => line.push(u as u8 as char),
                _ => line.push_str(&format!("\\u{u:04x}")),
            }
        }
        line.push_str("\"\n");
        self.to.write_all(line.as_bytes()).ok()?;
        self.to.flush().ok()?;
        let mut p = libc::pollfd {
            fd: self.from.get_ref().as_raw_fd(),
            events: libc::POLLIN,
            revents: 0,
        };
        if unsafe { libc::poll(&mut p, 1, wait_s * 1000) } <= 0 {
            return None;
        }
        let mut answer = String::new();
        match self.from.read_line(&mut answer) {
            Ok(n) if n > 0 => {
                let mut d = serde_json::Deserializer::from_str(&answer);
                d.disable_recursion_limit();
                Value::deserialize(&mut d).ok()
            }
            _ => None,
        }
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

fn in_node(text: &str) -> Res<Value> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(Node::start);
        if let Some(v) = node.ask(text, 60) {
            return Ok(v);
        }
        // Once more, all alone.
        *n = None;
        let node = n.insert(Node::start());
        match node.ask(text, 120) {
            Some(v) => Ok(v),
            None => {
                *n = None;
                Err("parseString does not come back".into())
            }
        }
    })
}

fn js_num(x: f64) -> Value {
    json!(["number", format!("{:x}", x.to_bits())])
}

fn js_str(s: &str) -> Value {
    json!(["string", s])
}

fn js_list(v: Vec<Value>) -> Value {
    json!(["array", v])
}

fn js_obj(mut v: Vec<(&str, Value)>) -> Value {
    v.sort_by_key(|x| x.0);
    json!(["object", v.into_iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()])
}

fn js_loc(l: Loc) -> Value {
    js_obj(vec![("line", js_num(l.0.into())), ("column", js_num(l.1.into()))])
}

fn js_ann(a: Ann) -> Value {
    let (d, i) = a.unwrap_or((0, 0));
    js_obj(vec![("distance", js_num(d.into())), ("index", js_num(i.into()))])
}

fn node(name: &str, mut args: Vec<Value>) -> Value {
    let args = match args.len() {
        0 => return js_obj(vec![("type", js_str(name))]),
        1 => args.pop().unwrap(),
        _ => js_list(args),
    };
    js_obj(vec![("type", js_str(name)), ("args", args)])
}

fn js_stmts(t: &[S]) -> Value {
    js_list(t.iter().map(js_stmt).collect())
}

fn js_stmt(s: &S) -> Value {
    match s {
        S::Block(b) => node("Block", vec![js_stmts(b)]),
        S::Break(l) => node("Break", vec![js_loc(*l)]),
        S::Continue(l) => node("Continue", vec![js_loc(*l)]),
        S::Class(c) => node(
            "Class",
            vec![js_obj(vec![
                ("name", js_str(&c.name)),
                (
                    "superclass",
                    c.sup.as_ref().map_or(json!(["undefined"]), |e| js_expr(e)),
                ),
                (
                    "methods",
                    js_list(c.methods.iter().map(|(n, f)| js_named(n, f)).collect()),
                ),
                ("source_loc", js_loc(c.loc)),
            ])],
        ),
        S::Expr(e) => node("Expression", vec![js_expr(e)]),
        S::Fun(n, f) => node("Fun", vec![js_named(n, f)]),
        S::If(c, a, b) => node(
            "If",
            vec![
                js_expr(c),
                js_stmt(a),
                b.as_ref().map_or(json!(["undefined"]), |b| js_stmt(b)),
            ],
        ),
        S::Print(e) => node("Print", vec![js_expr(e)]),
        S::Return(e, l) => node("Return", vec![js_expr(e), js_loc(*l)]),
        S::Var(n, i, e, l) => node(
            "Var",
            vec![
                js_str(n),
                js_num(i.unwrap_or(0).into()),
                js_expr(e),
                js_loc(*l),
            ],
        ),
        S::While(c, b) => node("While", vec![js_expr(c), js_stmt(b)]),
        S::WhileInc(c, b, i) => {
            node("WhileIncrement", vec![js_expr(c), js_stmt(b), js_expr(i)])
        }
    }
}

fn js_named(n: &str, f: &FunD) -> Value {
    js_obj(vec![("name", js_str(n)), ("fun_def", js_fun(f))])
}

fn js_fun(f: &FunD) -> Value {
    js_obj(vec![
        (
            "parameters",
            js_list(
                f.params
                    .iter()
                    .map(|(n, l)| js_obj(vec![("name", js_str(n)), ("source_loc", js_loc(*l))]))
                    .collect(),
            ),
        ),
        ("body", js_stmts(&f.body)),
        (
            "fun_type",
            js_str(match f.kind {
                FK::Plain => "PlainFunction",
                FK::Method => "Method",
                FK::Init => "Initializer",
                FK::ClassMethod => "ClassMethod",
            }),
        ),
        ("source_loc", js_loc(f.loc)),
    ])
}

fn js_expr(e: &E) -> Value {
    match e {
        E::Assign(n, a, v, l) => node(
            "Assign",
            vec![js_str(n), js_ann(*a), js_expr(v), js_loc(*l)],
        ),
        E::Call(f, a, l) => node(
            "Call",
            vec![js_expr(f), js_list(a.iter().map(js_expr).collect()), js_loc(*l)],
        ),
        E::Bin(x, op, y, l) => {
            let op = match op {
                BOp::Plus => "Plus",
                BOp::Minus => "Minus",
                BOp::Mul => "Multiply",
                BOp::Div => "Divide",
                BOp::Eq => "Equal",
                BOp::Ne => "NotEqual",
                BOp::Lt => "Less",
                BOp::Le => "LessEqual",
                BOp::Gt => "Greater",
                BOp::Ge => "GreaterEqual",
            };
            node("Binary", vec![js_expr(x), js_str(op), js_expr(y), js_loc(*l)])
        }
        E::Fun(f) => node("Function", vec![js_fun(f)]),
        E::Get(o, n, l) => node("Get", vec![js_expr(o), js_str(n), js_loc(*l)]),
        E::Index(o, i, l) => node("GetIndex", vec![js_expr(o), js_expr(i), js_loc(*l)]),
        E::Group(e) => node("Grouping", vec![js_expr(e)]),
        E::Array(a) => node("LiteralArray", vec![js_list(a.iter().map(js_expr).collect())]),
        E::Bool(b) => node("LiteralBool", vec![json!(["boolean", b])]),
        E::Map(m) => node(
            "LiteralMap",
            vec![json!([
                "map",
                m.iter()
                    .map(|(k, v)| json!([js_str(k), js_expr(v)]))
                    .collect::<Vec<_>>()
            ])],
        ),
        E::Num(b) => node("LiteralNumber", vec![js_num(f64::from_bits(*b))]),
        E::Nil => node("LiteralNil", vec![]),
        E::Str(s) => node("LiteralString", vec![js_str(s)]),
        E::Logic(x, op, y) => node(
            "Logical",
            vec![
                js_expr(x),
                js_str(match op {
                    LOp::And => "And",
                    LOp::Or => "Or",
                }),
                js_expr(y),
            ],
        ),
        E::Set(o, n, v, l) => node(
            "Set",
            vec![js_expr(o), js_str(n), js_expr(v), js_loc(*l)],
        ),
        E::SetIndex(o, i, v, l) => node(
            "SetIndex",
            vec![js_expr(o), js_expr(i), js_expr(v), js_loc(*l)],
        ),
        E::Super(a, n, l) => node("Super", vec![js_ann(*a), js_str(n), js_loc(*l)]),
        E::Var(n, a, l) => node("Variable", vec![js_str(n), js_ann(*a), js_loc(*l)]),
        E::Un(op, e, l) => node(
            "Unary",
            vec![
                js_str(match op {
                    UOp::Minus => "Minus",
                    UOp::Not => "Not",
                }),
                js_expr(e),
                js_loc(*l),
            ],
        ),
    }
}

/// The first place where two values differ.
fn value_diff(want: &Value, got: &Value, path: &str) -> Option<String> {
    if want == got {
        return None;
    }
    if let (Some(a), Some(b)) = (want.as_array(), got.as_array()) {
        if a.len() == b.len() {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                let key = a[0].as_str().filter(|_| i == 1).unwrap_or("");
                if let Some(d) = value_diff(x, y, &format!("{path}/{i}{key}")) {
                    return Some(d);
                }
            }
        }
    }
    Some(format!(
        "at {path}: expected {}, got {}",
        clip(&want.to_string(), 400),
        clip(&got.to_string(), 400)
    ))
}

fn same_in_node(ctx: &mut Ctx, text: &str) -> CaseResult {
    let native = library(text)?;
    let got = in_node(text)?;
    if let Some(m) = got["broken"].as_str() {
        return Err(format!("parseString failed: {m}"));
    }
    match native {
        Ok(t) => {
            ctx.label("accepted");
            if let Some(m) = got["error"].as_str() {
                return Err(format!("parseString rejects what the library accepts: {m:?}"));
            }
            let want = js_stmts(&tree::from_lib(&t, true));
            match value_diff(&want, &got["value"], "") {
                None => Ok(()),
                Some(d) => Err(format!("the JavaScript value differs {d}")),
            }
        }
        Err(e) => {
            ctx.label("rejected");
            let Some(m) = got["error"].as_str() else {
                return Err("parseString accepts what the library rejects".into());
            };
            // Every error with its place and message, in order.
            let mut rest = m;
            for c in &e.causes {
                let (l, k) = (c.source_loc.line, c.source_loc.column);
                let cause = match &c.token {
                    Some(t) => format!("{l}:{k} at {t:?}: {}", c.message),
                    None => format!("{l}:{k}: {}", c.message),
                };
                match rest.find(&cause) {
                    // Only line ends between them.
                    Some(i) if rest[..i].trim().is_empty() => rest = &rest[i + cause.len()..],
                    _ => {
                        return Err(format!(
                            "the error message lacks {cause:?} next: {:?}",
                            clip(rest, 400)
                        ))
                    }
                }
            }
            if !rest.trim().is_empty() {
                return Err(format!("the error message goes on with {rest:?}"));
            }
            Ok(())
        }
    }
}

fn c17_programs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let f = fuel(src);
    let mut cfg = Cfg::new(f);
    cfg.mischief = *src.pick(&[0, 0, 100]);
    let mut p = gen::program(src, cfg);
    if src.chance(1, 3) {
        // Numbers and strings of every kind.
        let g = Gen::new(src, cfg);
        let n = g.src.range(1, 4);
        for _ in 0..n {
            let b = gen::number(g.src);
            p.push(S::Print(E::Num(b)));
            let s = gen::string(g.src, true);
            p.push(S::Print(E::Str(s)));
        }
    }
    if src.chance(1, 3) {
        // A long map.
        let n = src.range(2, 40);
        let names = big::keys(src, n);
        // A map without braces must stay first.
        let at = src.range(p.len().min(1), p.len());
        let m = names.into_iter().enumerate().map(|(i, k)| (k, E::Num((i as f64).to_bits())));
        p.insert(at, S::Print(E::Map(m.collect())));
    }
    let mut st = Style::random(src);
    if src.chance(1, 4) {
        st.bare_maps = Choice::Always;
    }
    let s = render(src, &p, &st).text;
    ctx.input("source", &s);
    ctx.case(&s, s.chars().count() > 2);
    same_in_node(ctx, &s)
}

fn c17_any(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let s = mixed(src);
    ctx.input("source", &s);
    ctx.case(&s, s.chars().count() > 2);
    same_in_node(ctx, &s)
}

fn c17_big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (_, s) = big::big(src, &big::SHALLOW, 30);
    ctx.input("source", &s);
    ctx.case(&s, true);
    same_in_node(ctx, &s)
}
