//! Constants of the code under test: words, characters and numbers that
//! occur in its source.  Inputs made of them reach what a change treats
//! specially.  They only feed generators; no verdict depends on them.
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Magic {
    /// Names, none of them a keyword.
    pub words: Vec<String>,
    /// Short strings and characters.
    pub pieces: Vec<String>,
    pub numbers: Vec<u64>,
}

pub const KEYWORDS: [&str; 16] = [
    "and", "break", "class", "continue", "else", "false", "for", "fun", "if", "nil",
    "or", "print", "return", "super", "this", "true",
];

/// What languages like this one have, and this one has not.
const WORDS: [&str; 34] = [
    "init", "constructor", "self", "null", "new", "undefined", "import", "in", "is",
    "not", "let", "const", "def", "fn", "function", "elif", "do", "end", "then", "pass",
    "static", "extends", "yield", "toString", "clock", "length", "None", "True", "_",
    "e5", "x1F", "Infinity", "NaN", "global",
];

pub fn magic() -> &'static Magic {
    static M: OnceLock<Magic> = OnceLock::new();
    M.get_or_init(|| {
        let mut words: BTreeSet<String> = WORDS.iter().map(|w| (*w).to_owned()).collect();
        let mut pieces = BTreeSet::from(["a".to_owned()]);
        let mut numbers = BTreeSet::from([255, 256, 65_535]);
        for f in files() {
            if let Ok(s) = std::fs::read_to_string(&f) {
                literals(&s, &mut pieces, &mut numbers);
            }
        }
        for p in &pieces {
            let word = p.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
                && !p.starts_with(|c: char| c.is_ascii_digit());
            if word && !KEYWORDS.contains(&p.as_str()) && p != "var" && p != "while" {
                words.insert(p.clone());
            }
        }
        Magic {
            words: words.into_iter().collect(),
            pieces: pieces.into_iter().collect(),
            numbers: numbers.into_iter().collect(),
        }
    })
}

fn files() -> Vec<std::path::PathBuf> {
    let here = Path::new(env!("CARGO_MANIFEST_DIR"));
    let Ok(toml) = std::fs::read_to_string(here.join("Cargo.toml")) else {
        return Vec::new();
    };
    let dir = toml
        .lines()
        .find(|l| l.starts_with("whitespace"))
        .and_then(|l| l.split('"').nth(1))
        .map(|d| here.join(d).join("src"));
    let mut v: Vec<_> = dir
        .and_then(|d| std::fs::read_dir(d).ok())
        .into_iter()
        .flatten()
        .flatten()
        .map(|e| e.path())
        .filter(|p| p.extension().is_some_and(|e| e == "rs"))
        .collect();
    v.sort();
    v
}

/// Finds literals, roughly; those of tests excluded.
fn literals(text: &str, pieces: &mut BTreeSet<String>, numbers: &mut BTreeSet<u64>) {
    let text = text.split("#[cfg(test)]\nmod").next().unwrap_or_default();
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        match c.get(i) {
                            Some('n') => s.push('\n'),
                            Some('r') => s.push('\r'),
                            Some('t') => s.push('\t'),
                            Some('0') => s.push('\0'),
                            Some('u') => {
                                let h: String = c[i..]
                                    .iter()
                                    .skip(2)
                                    .take_while(|x| x.is_ascii_hexdigit())
                                    .collect();
                                i += h.len() + 2;
                                if let Some(x) = u32::from_str_radix(&h, 16)
                                    .ok()
                                    .and_then(char::from_u32)
                                {
                                    s.push(x);
                                }
                            }
                            Some(x) => s.push(*x),
                            None => (),
                        }
                    } else {
                        s.push(c[i]);
                    }
                    i += 1;
                }
                if !s.is_empty() && s.chars().count() <= 16 {
                    pieces.insert(s);
                }
                i += 1;
            }
            '\'' if c.get(i + 1) == Some(&'\\') && c.get(i + 3) == Some(&'\'') => {
                let x = match c[i + 2] {
                    'n' => '\n',
                    'r' => '\r',
                    't' => '\t',
                    '0' => '\0',
                    x => x,
                };
                pieces.insert(x.to_string());
                i += 4;
            }
            '\'' if c[i..].starts_with(&['\'', '\\', 'u', '{']) => {
                let h: String =
                    c[i + 4..].iter().take_while(|x| x.is_ascii_hexdigit()).collect();
                i += 6 + h.len();
                let x = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32);
                pieces.extend(x.map(String::from));
            }
            '\'' if c.get(i + 2) == Some(&'\'') => {
                pieces.insert(c[i + 1].to_string());
                i += 3;
            }
            x if x.is_ascii_digit() => {
                let s: String = c[i..]
                    .iter()
                    .take_while(|x| x.is_ascii_alphanumeric() || **x == '_')
                    .collect();
                i += s.len();
                let s = s.replace('_', "");
                let digits: String =
                    s.chars().take_while(char::is_ascii_digit).collect();
                let n = match s.strip_prefix("0x") {
                    Some(h) => u64::from_str_radix(h, 16),
                    None => digits.parse(),
                };
                if let Ok(n) = n {
                    numbers.insert(n);
                }
            }
            x if x.is_alphanumeric() || x == '_' => {
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
}
