//! Sources of a sloppy grammar: nearly programs, with any expression where
//! only some are allowed, and here and there something left out, doubled or
//! put in.
use crate::engine::Src;
use crate::gen;
use crate::soup::TOKENS;

struct Loose {
    out: String,
    fuel: usize,
    /// One slip in this many places.
    rare: u64,
    indent: usize,
}

pub fn loose(src: &mut Src) -> String {
    let mut l = Loose {
        out: String::new(),
        fuel: *src.pick(&[4, 8, 16, 30]),
        rare: *src.pick(&[12, 30, 80, 100_000]),
        indent: 0,
    };
    let n = 1 + src.weighted(&[6, 2, 1]);
    for _ in 0..n {
        l.stmt(src, 0);
    }
    if src.chance(1, 12) {
        while l.out.ends_with('\n') {
            l.out.pop();
        }
    }
    l.out
}

impl Loose {
    fn put(&mut self, s: &str) {
        self.out.push_str(s);
    }

    /// Puts a piece, or rarely something else.
    fn tok(&mut self, src: &mut Src, s: &str) {
        if src.chance(1, self.rare) {
            match src.below(4) {
                0 => (),
                1 => {
                    self.put(s);
                    self.put(s);
                }
                2 => {
                    let t = *src.pick(&TOKENS);
                    self.put(s);
                    self.put(" ");
                    self.put(t);
                    self.put(" ");
                }
                _ => {
                    let t = *src.pick(&TOKENS);
                    self.put(t);
                }
            }
        } else {
            self.put(s);
        }
    }

    fn spend(&mut self) -> bool {
        let left = self.fuel > 0;
        self.fuel = self.fuel.saturating_sub(1);
        left
    }

    fn name(&mut self, src: &mut Src) {
        if src.chance(1, 20) {
            let n = gen::odd_name(src);
            self.tok(src, &n);
        } else {
            let n = *src.pick(&["a", "b", "c", "foo", "init", "x1"]);
            self.tok(src, n);
        }
    }

    fn end(&mut self, src: &mut Src) {
        let t = *src.pick(&["\n", "\n", "\n", "\n", " // c\n", "\n\n"]);
                self.tok(src, t);
    }

    fn lead(&mut self) {
        let w = self.indent;
        if self.out.ends_with('\n') || self.out.is_empty() {
            self.out.push_str(&" ".repeat(w));
        }
    }

    fn body(&mut self, src: &mut Src, depth: usize) {
        let n = src.weighted(&[1, 8, 3, 1]);
        if src.chance(1, 3) {
            // In braces, on one line.
            self.tok(src, " {");
            self.put(" ");
            for _ in 0..n {
                self.inline(src, depth + 1);
                self.put("\\\n");
                self.lead();
            }
            self.tok(src, "}");
            if src.chance(1, 2) {
                self.put(" \\\n");
            }
            return;
        }
        self.end(src);
        let old = self.indent;
        self.indent += *src.pick(&[1, 2, 2, 4]);
        for _ in 0..n.max(1) {
            self.stmt(src, depth + 1);
        }
        self.indent = old;
    }

    /// A statement that ends its line, in braces.
    fn inline(&mut self, src: &mut Src, depth: usize) {
        self.simple(src, depth);
        self.end(src);
        self.lead();
    }

    fn simple(&mut self, src: &mut Src, depth: usize) {
        match src.weighted(&[6, 3, 3, 2, 1, 1, 1]) {
            0 => self.expr(src, 0),
            1 => {
                self.tok(src, "print ");
                self.expr(src, 0);
            }
            2 => {
                self.tok(src, "var ");
                self.name(src);
                if src.chance(5, 6) {
                    self.tok(src, " = ");
                    self.expr(src, 0);
                }
            }
            3 => {
                self.tok(src, "return ");
                if src.chance(2, 3) {
                    self.expr(src, 0);
                }
            }
            4 => self.tok(src, "break"),
            5 => self.tok(src, "continue"),
            _ => {
                self.tok(src, "{");
                self.put(" ");
                self.inline(src, depth + 1);
                self.tok(src, "}");
            }
        }
    }

    fn stmt(&mut self, src: &mut Src, depth: usize) {
        self.lead();
        if !self.spend() || depth > 5 {
            self.simple(src, depth);
            self.end(src);
            return;
        }
        match src.weighted(&[10, 3, 3, 3, 2, 2]) {
            0 => {
                self.simple(src, depth);
                self.end(src);
            }
            1 => {
                self.tok(src, "if (");
                self.expr(src, 0);
                self.tok(src, ")");
                self.branch(src, depth);
                while src.chance(1, 3) {
                    self.lead();
                    self.tok(src, "else");
                    if src.chance(1, 3) {
                        self.put(" ");
                        self.tok(src, "if (");
                        self.expr(src, 0);
                        self.tok(src, ")");
                    }
                    self.branch(src, depth);
                }
            }
            2 => {
                self.tok(src, "while (");
                self.expr(src, 0);
                self.tok(src, ")");
                self.branch(src, depth);
            }
            3 => {
                self.tok(src, "for (");
                match src.below(4) {
                    0 => (),
                    1 => self.expr(src, 0),
                    _ => {
                        self.tok(src, "var ");
                        self.name(src);
                        if src.chance(2, 3) {
                            self.tok(src, " = ");
                            self.expr(src, 0);
                        }
                    }
                }
                self.tok(src, "; ");
                if src.chance(2, 3) {
                    self.expr(src, 0);
                }
                self.tok(src, "; ");
                if src.chance(2, 3) {
                    self.expr(src, 0);
                }
                self.tok(src, ")");
                self.branch(src, depth);
            }
            4 => {
                self.tok(src, "fun ");
                self.name(src);
                self.function(src, depth);
            }
            _ => {
                self.tok(src, "class ");
                self.name(src);
                if src.chance(1, 3) {
                    self.tok(src, " < ");
                    self.name(src);
                }
                self.end(src);
                let old = self.indent;
                self.indent += 2;
                for _ in 0..1 + src.idx(3) {
                    self.lead();
                    if src.chance(1, 4) {
                        self.tok(src, "class ");
                    }
                    if src.chance(1, 2 * self.rare) {
                        self.stmt(src, depth + 1);
                        continue;
                    }
                    self.name(src);
                    self.function(src, depth);
                }
                self.indent = old;
            }
        }
    }

    fn branch(&mut self, src: &mut Src, depth: usize) {
        if src.chance(1, 4) {
            self.put(" ");
            self.stmt(src, depth + 1);
        } else {
            self.body(src, depth);
        }
    }

    fn function(&mut self, src: &mut Src, depth: usize) {
        let t = *src.pick(&[" (", "("]);
                self.tok(src, t);
        let n = src.weighted(&[3, 3, 2, 1]);
        for i in 0..n {
            if i > 0 {
                self.tok(src, ", ");
            }
            self.name(src);
        }
        self.tok(src, ")");
        self.body(src, depth);
    }

    fn items(&mut self, src: &mut Src, depth: usize) {
        let n = src.weighted(&[2, 4, 3, 1]);
        for i in 0..n {
            if i > 0 {
                self.tok(src, ", ");
            }
            self.expr(src, depth + 1);
        }
        if n > 0 && src.chance(1, 8) {
            self.put(",");
        }
    }

    fn entries(&mut self, src: &mut Src, depth: usize) {
        let n = src.weighted(&[2, 4, 3, 1]);
        for i in 0..n {
            if i > 0 {
                self.tok(src, ", ");
            }
            let k = *src.pick(&["a", "b", "c", "d", "\"a\"", "\"k v\"", "\"\""]);
            self.tok(src, k);
            self.tok(src, ": ");
            self.expr(src, depth + 1);
        }
        if n > 0 && src.chance(1, 8) {
            self.put(",");
        }
    }

    fn expr(&mut self, src: &mut Src, depth: usize) {
        if !self.spend() || depth > 6 {
            let t = *src.pick(&[
                "a", "b", "1", "\"s\"", "true", "nil", "this", "f", "2.5",
            ]);
            self.tok(src, t);
            return;
        }
        match src.weighted(&[5, 4, 2, 3, 3, 3, 3, 4, 1, 1, 1, 1]) {
            0 => self.name(src),
            1 => {
                self.expr(src, depth + 1);
                let o = *src.pick(&[
                    " + ", " - ", " * ", "/", " < ", " <= ", " > ", " >= ",
                    " == ", " != ", " and ", " or ", "-", "+",
                ]);
                self.tok(src, o);
                self.expr(src, depth + 1);
            }
            2 => {
                let t = *src.pick(&["-", "!", "- "]);
                self.tok(src, t);
                self.expr(src, depth + 1);
            }
            3 => {
                self.tok(src, "(");
                self.expr(src, depth + 1);
                self.tok(src, ")");
            }
            4 => {
                self.expr(src, depth + 1);
                self.tok(src, ".");
                self.name(src);
            }
            5 => {
                self.expr(src, depth + 1);
                let t = *src.pick(&["[", "[", " ["]);
                self.tok(src, t);
                self.expr(src, depth + 1);
                self.tok(src, "]");
            }
            6 => {
                self.expr(src, depth + 1);
                if src.chance(2, 3) {
                    self.tok(src, "(");
                    self.items(src, depth);
                    self.tok(src, ")");
                } else {
                    self.tok(src, " ");
                    self.items(src, depth);
                }
            }
            // Anything is assigned to.
            7 => {
                self.expr(src, depth + 1);
                self.tok(src, " = ");
                self.expr(src, depth + 1);
            }
            8 => {
                self.tok(src, "[");
                self.items(src, depth);
                self.tok(src, "]");
            }
            9 => {
                let braces = src.chance(3, 4);
                if braces {
                    self.tok(src, "{");
                }
                self.entries(src, depth);
                if braces {
                    self.tok(src, "}");
                }
            }
            10 => {
                self.tok(src, "super");
                self.tok(src, ".");
                self.name(src);
            }
            _ => {
                self.tok(src, "fun ");
                self.function(src, 4);
            }
        }
    }
}
