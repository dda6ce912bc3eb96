//! Workload: djot documents. Grammar-driven (every block and inline construct, nesting, shared
//! label pools so that references resolve, dangle and collide), mixed with snippets from a corpus
//! and damaged by small edits.

use crate::dict;
use crate::tape::Tape;

const CORPUS: &str = include_str!("../corpus.txt");

pub struct Gen {
    corpus: Vec<&'static str>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Size {
    Tiny,
    Small,
    Large,
    Huge,
}

const LABELS: &[&str] = &[
    "a", "b", "c", "note", "A b", "ünï", "x_y", "1", // and some that only nearly match others
    "A", "Note", "NOTE", "a b", "a  b", "a\tb", "Ünï", "u\u{308}nï", "x-y", "01", "*a*", "nöte", "note1", "Intro", "intro",
];
const WORDS: &[&str] = &[
    "w", "para", "text", "hello", "x", "y z", "1", "é", "日本", "🦀", "don't", "end.", "a-b", "--", "---", "...", "<b>",
    "&", "&amp;", "\"", "'", "a\"b", "'tis", "$", "!", "\\*", "\\ ", "\\\"", ":", "|", "/", "=", "]", "[", "}", "{", "(", ")",
    "\t", "\u{a0}", "-", "*", "_", "^", "~", "`", "#", ">", "+", "%", "....", "-----",
];
const URLS: &[&str] = &["url", "http://e.x/?a=b&c=d", "", "a b", "x\"y", "#h", "ü", "a\\)b", "<u>"];
const CLASSES: &[&str] = &["c", "note", "d-1", "a:b"];
const KEYS: &[&str] = &["k", "id", "class", "data-x", "style", "k2"];

/// How often something is repeated: mostly a few times, sometimes up to and beyond what code sets as limits.
pub fn count(t: &mut Tape, max: usize) -> usize {
    let n = match t.weighted(&[8, 6, 5, if dict::fresh() { 6 } else { 1 }]) {
        0 => 1 + t.usize(3),
        1 => 1 + t.usize(40),
        3 => dict::int(t).max(1),
        _ => (1 << (4 + t.usize(13))) + t.usize(4) - 2,
    };
    if n > max {
        1 + n % 50
    } else {
        n
    }
}

impl Gen {
    pub fn new() -> Self {
        Gen {
            corpus: CORPUS.split("\n\u{1e}\n").collect(),
        }
    }

    pub fn size(&self, t: &mut Tape) -> Size {
        [Size::Tiny, Size::Small, Size::Large, Size::Huge][t.weighted(&[30, 55, 13, 2])]
    }

    pub fn doc(&self, t: &mut Tape) -> String {
        let s = self.size(t);
        self.doc_sized(t, s)
    }

    pub fn doc_sized(&self, t: &mut Tape, size: Size) -> String {
        let (min, max) = match size {
            Size::Tiny => (1, 2),
            Size::Small => (1, 8),
            Size::Large => (4, 24),
            Size::Huge => (6, 40),
        };
        let mut out = String::new();
        let mut i = 0;
        // swarm: each run only uses a subset of block kinds, with its own bias
        let swarm = t.draw(4);
        while t.more(i, min, max, 9, 10) {
            let mut lines = Vec::new();
            match t.weighted(&[8, 3, 1]) {
                0 => self.block(t, 0, swarm, &mut lines),
                1 => lines.extend(t.pick(&self.corpus).lines().map(str::to_string)),
                _ => lines.extend(self.soup(t).lines().map(str::to_string)),
            }
            for l in lines {
                out.push_str(&l);
                out.push('\n');
            }
            if !t.chance(1, 4) {
                out.push('\n');
            }
            i += 1;
        }
        if size == Size::Huge {
            // long runs cross every fixed-size buffer between the parser and the sink
            let n = [1000, 4096, 8191, 8192, 8193, 20000, 70000][t.usize(7)];
            let unit = *t.pick(&["x", "word ", "é", "<", "a\n", "- i\n", "[l](u) ", "[^a] ", "`v` "]);
            let mut big = String::new();
            while big.len() < n {
                big.push_str(unit);
            }
            big.push('\n');
            if t.chance(1, 2) {
                out = big + "\n" + &out;
            } else {
                out = out + &big;
            }
        }
        // definitions for the shared labels, so that references in the document can resolve
        if t.chance(2, 5) {
            let mut i = 0;
            while t.more(i, 1, 4, 1, 2) {
                let mut lines = Vec::new();
                if t.chance(1, 2) {
                    self.footnote_def(t, 0, swarm, &mut lines);
                } else {
                    self.link_def(t, &mut lines);
                }
                for l in lines {
                    out.push_str(&l);
                    out.push('\n');
                }
                if t.chance(3, 4) {
                    out.push('\n');
                }
                i += 1;
            }
        }
        let mut i = 0;
        if t.chance(1, if dict::fresh() { 3 } else { 12 }) {
            while t.more(i, 1, 3, 1, 3) {
                self.constants(t, &mut out, if size == Size::Tiny { 3000 } else { 20_000 });
                i += 1;
            }
        }
        let mut i = 0;
        if t.chance(1, 4) {
            while t.more(i, 1, 3, 1, 3) {
                self.damage(t, &mut out);
                i += 1;
            }
        }
        out
    }

    /// Many headings, definitions and footnotes of few names, and references to all of them: what
    /// the library keeps in maps and sorted tables.
    pub fn catalog(&self, t: &mut Tape) -> String {
        const NAMES: [&str; 12] = ["a", "b", "c", "A", "a b", "note", "é", "1", "Intro", "a-1", "b-1", "*a*"];
        let names = &NAMES[..1 + t.usize(NAMES.len())];
        let n = [8, 21, 33, 64, 150][t.usize(5)];
        let (shape, refs) = (t.draw(4), t.chance(1, 2));
        let mut out = String::new();
        for i in 0..n {
            let k = match shape {
                0 => i % names.len(),
                1 => (n - i) * names.len() / (n + 1),
                _ => t.usize(names.len()),
            };
            let name = names[k];
            out.push_str(&match t.weighted(&[8, 1, 1, 1]) {
                0 => format!("{} {name}\n\n", ["#", "##", "###"][t.usize(3)]),
                1 => format!("[{name}]: u{i}\n\n"),
                2 => format!("[^{name}]: f{i} [{name}][]\n\n"),
                _ => format!("{{#{}}}\np\n\n", name.replace([' ', '*'], "-")),
            });
            if refs && t.chance(1, 3) {
                let r = names[t.usize(names.len())];
                out.push_str(&format!("[{r}][] [x][{r}] [^{r}]\n\n"));
            }
        }
        for r in names {
            out.push_str(&format!("[{r}][] [^{r}]\n"));
        }
        out
    }

    /// Put words and numbers of the source into a document: as text, in place of a name, as the
    /// length of a run or of a word, as the number of repetitions or of levels.
    fn constants(&self, t: &mut Tape, s: &mut String, max: usize) {
        let mut i = t.usize(s.len() + 1);
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        let run = |s: &str, i: usize| {
            let a = s[i..].find(|c: char| c.is_alphanumeric()).map_or(s.len(), |j| i + j);
            let b = s[a..].find(|c: char| !c.is_alphanumeric()).map_or(s.len(), |j| a + j);
            (a, b)
        };
        let n = |t: &mut Tape, max: usize| {
            let n = dict::int(t);
            if n > max {
                1 + n % 100
            } else {
                n
            }
        };
        match t.weighted(&[6, 6, 4, 3, 3, 2]) {
            0 => s.insert_str(i, dict::word(t)),
            1 => {
                let (a, b) = run(s, i);
                s.replace_range(a..b, dict::word(t));
            }
            2 => {
                // a run of one character
                if let Some(j) = s[i..].find(|c: char| c.is_ascii_punctuation() || c == ' ' || c == '\n' || c.is_ascii_digit()) {
                    let c = s.as_bytes()[i + j] as char;
                    let len = s[i + j..].bytes().take_while(|b| *b as char == c).count();
                    let n = n(t, max);
                    s.replace_range(i + j..i + j + len, &c.to_string().repeat(n));
                }
            }
            3 => {
                // a word of that many bytes or characters
                let (a, b) = run(s, i);
                let unit = *t.pick(&["x", "é", "<"]);
                let n = n(t, max);
                let n = if t.chance(1, 2) { n } else { n / unit.len() };
                s.replace_range(a..b, &unit.repeat(n));
            }
            4 => {
                // some lines that many times
                let a = s[..i].rfind('\n').map_or(0, |j| j + 1);
                let mut b = a;
                for _ in 0..1 + t.usize(3) {
                    b = s[b..].find('\n').map_or(s.len(), |j| b + j + 1);
                }
                let l = s[a..b].to_string();
                let n = n(t, max / l.len().max(1));
                s.insert_str(a, &l.repeat(n));
            }
            _ => {
                // that many levels
                let a = s[..i].rfind('\n').map_or(0, |j| j + 1);
                let unit = *t.pick(&["> ", "- ", "1. ", "{_", "[", "*", "(", "[^a]: "]);
                let n = n(t, 300.min(max));
                s.insert_str(if t.chance(1, 2) { a } else { i }, &unit.repeat(n));
            }
        }
    }

    /// Edit a document the way hands, editors and broken tools do; stays valid UTF-8.
    pub fn damage(&self, t: &mut Tape, s: &mut String) {
        let at = |t: &mut Tape, s: &str| {
            let mut i = t.usize(s.len() + 1);
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            i
        };
        match t.weighted(&[3, 3, 4, 2, 1, 1, 1, 2, 2]) {
            0 => {
                let i = at(t, s);
                s.truncate(i);
            }
            1 => {
                let (a, b) = (at(t, s), at(t, s));
                let (a, b) = (a.min(b), a.max(b));
                let b = b.min(a + 12);
                let mut b = b;
                while !s.is_char_boundary(b) {
                    b -= 1;
                }
                s.replace_range(a..b, "");
            }
            2 => {
                let i = at(t, s);
                s.insert_str(i, t.pick(SOUP));
            }
            3 => {
                if let Some(i) = s.find('\n') {
                    let j = at(t, s);
                    let l = s[..=i].to_string();
                    s.insert_str(j, &l);
                }
            }
            4 => *s = s.replace('\n', "\r\n"),
            5 => {
                let i = at(t, s);
                s.insert(i, *t.pick(&['\0', '\u{feff}', '\u{7f}', '\r', '\u{b}', '\u{c}']));
            }
            6 => {
                let n = s.trim_end().len();
                s.truncate(n);
            }
            8 => {
                // pasted from elsewhere: a space or a line end that is none
                let c = *t.pick(&["\u{a0}", "\u{3000}", "\u{2003}", "\u{202f}", "\u{200b}", "\u{85}", "\u{2028}", "\u{b}", "\u{c}", "\u{1f}", "\t"]);
                if t.chance(1, 4) {
                    *s = s.replace(' ', c);
                } else {
                    let i = at(t, s);
                    // preferably behind something that means something at the start of a line
                    let j = s[i..].find([' ', '\n']).map_or(i, |j| i + j);
                    if s[j..].starts_with(' ') {
                        s.replace_range(j..=j, c);
                    } else {
                        s.insert_str(if t.chance(1, 2) { j } else { if s[j..].starts_with('\n') { j + 1 } else { j } }, c);
                    }
                }
            }
            _ => {
                // a key got stuck, preferably one that means something
                let mut i = at(t, s);
                if let Some(j) = s[i..].find(|c: char| c.is_ascii_punctuation() || c.is_ascii_digit()) {
                    if j < 60 && !t.chance(1, 4) {
                        i += j;
                    }
                }
                if let Some(c) = s[i..].chars().next() {
                    let n = count(t, 1025);
                    s.insert_str(i, &c.to_string().repeat(n));
                }
            }
        }
    }

    fn soup(&self, t: &mut Tape) -> String {
        let mut s = String::new();
        let mut i = 0;
        while t.more(i, 1, 24, 9, 10) {
            s.push_str(t.pick(SOUP));
            i += 1;
        }
        s
    }

    fn label(&self, t: &mut Tape) -> &'static str {
        if t.chance(3, 4) {
            t.pick(&LABELS[..8])
        } else {
            t.pick(&LABELS[8..])
        }
    }

    pub fn attrs(&self, t: &mut Tape) -> String {
        let mut s = String::from("{");
        let mut i = 0;
        while t.more(i, 1, 4, 1, 3) {
            if i > 0 {
                s.push(' ');
            }
            match t.weighted(&[4, 4, 4, 2, 2, 1]) {
                0 => {
                    s.push('.');
                    s.push_str(t.pick(CLASSES));
                }
                1 => {
                    s.push('#');
                    s.push_str(t.pick(&["i", "j", "h", "Intro"]));
                }
                2 => {
                    s.push_str(t.pick(KEYS));
                    s.push('=');
                    s.push_str(t.pick(&["v", "w", "1"]));
                }
                3 => {
                    s.push_str(t.pick(KEYS));
                    s.push_str("=\"");
                    s.push_str(t.pick(&["", "a b", "<&>", "\\\"q", "l1\nl2", "x\\\\y"]));
                    s.push('"');
                }
                4 => s.push_str("%c t%"),
                _ => s.push_str(t.pick(&["", "%", "k=", ".", "%open"])),
            }
            i += 1;
        }
        s.push('}');
        s
    }

    fn inline(&self, t: &mut Tape, depth: u32, out: &mut String) {
        let mut i = 0;
        let max = if depth == 0 { 10 } else { 3 };
        while t.more(i, 1, max, 3, 4) {
            if i > 0 && !t.chance(1, 4) {
                out.push(' ');
            }
            self.inline_one(t, depth, out);
            i += 1;
        }
    }

    fn wrap(&self, t: &mut Tape, depth: u32, open: &str, close: &str, out: &mut String) {
        out.push_str(open);
        self.inline(t, depth + 1, out);
        out.push_str(close);
    }

    fn inline_one(&self, t: &mut Tape, depth: u32, out: &mut String) {
        let kind = if depth > 3 {
            t.weighted(&[8, 3])
        } else {
            t.weighted(&[10, 8, 5, 5, 3, 5, 4, 3, 3, 2, 3, 2, 2, 2, 2, 4])
        };
        match kind {
            0 => out.push_str(t.pick(&WORDS[..12])),
            1 => out.push_str(t.pick(WORDS)),
            2 => {
                let d = *t.pick(&["_", "*", "^", "~"]);
                self.wrap(t, depth, d, d, out);
            }
            3 => {
                let (o, c) = *t.pick(&[
                    ("{=", "=}"),
                    ("{+", "+}"),
                    ("{-", "-}"),
                    ("{_", "_}"),
                    ("{*", "*}"),
                    ("{^", "^}"),
                    ("{~", "~}"),
                    ("\"", "\""),
                    ("'", "'"),
                    ("{\"", "\"}"),
                ]);
                self.wrap(t, depth, o, c, out);
            }
            4 => {
                let b = *t.pick(&["`", "``", "```"]);
                out.push_str(t.pick(&["", "$", "$$"]));
                out.push_str(b);
                out.push_str(t.pick(&["v", "a*b*", "<x>", " `` ", "{a}", "\\"]));
                out.push_str(b);
                match t.weighted(&[4, 1, 1]) {
                    1 => out.push_str("{=html}"),
                    2 => out.push_str("{=tex}"),
                    _ => {}
                }
            }
            5 => {
                // link or image
                if t.chance(1, 3) {
                    out.push('!');
                }
                self.wrap(t, depth, "[", "]", out);
                match t.weighted(&[4, 3, 3, 2]) {
                    0 => {
                        out.push('(');
                        out.push_str(t.pick(URLS));
                        if t.chance(1, 8) {
                            out.push_str("\nmore");
                        }
                        out.push(')');
                    }
                    1 => {
                        out.push('[');
                        out.push_str(self.label(t));
                        out.push(']');
                    }
                    2 => out.push_str("[]"),
                    _ => {}
                }
            }
            6 => {
                out.push_str("[^");
                out.push_str(self.label(t));
                out.push(']');
            }
            7 => {
                self.wrap(t, depth, "[", "]", out);
                out.push_str(&self.attrs(t));
            }
            8 => {
                out.push_str(t.pick(&["w", "é"]));
                out.push_str(&self.attrs(t));
            }
            9 => out.push_str(t.pick(&["<https://e.x/a?b&c>", "<me@e.x>", "<x>", "<a:"])),
            10 => out.push_str(t.pick(&[":sym:", ":+1:", ":no sym:", "::"])),
            11 => {
                out.push_str("\\\n");
            }
            12 => {
                // reference by heading or label text, collapsed
                out.push('[');
                out.push_str(t.pick(&["Intro", "a", "h h", "note"]));
                out.push_str("][]");
            }
            13 => out.push_str(&self.attrs(t)),
            14 => out.push_str(t.pick(SOUP)),
            _ => out.push('\n'),
        }
    }

    fn para(&self, t: &mut Tape, lines: &mut Vec<String>) {
        let mut s = String::new();
        self.inline(t, 0, &mut s);
        lines.extend(s.split('\n').map(str::to_string));
    }

    fn link_def(&self, t: &mut Tape, lines: &mut Vec<String>) {
        if t.chance(1, 4) {
            lines.extend(self.attrs(t).split('\n').map(str::to_string));
        }
        lines.push(format!("[{}]: {}", self.label(t), t.pick(URLS)));
        if t.chance(1, 5) {
            lines.push(format!("  {}", t.pick(URLS)));
        }
    }

    fn footnote_def(&self, t: &mut Tape, depth: u32, swarm: u32, lines: &mut Vec<String>) {
        let l = self.label(t);
        let mut inner = Vec::new();
        self.blocks(t, depth + 1, swarm, &mut inner);
        for (i, x) in inner.iter().enumerate() {
            if i == 0 {
                lines.push(format!("[^{l}]: {x}"));
            } else if x.is_empty() {
                lines.push(String::new());
            } else {
                lines.push(format!("  {x}"));
            }
        }
    }

    fn blocks(&self, t: &mut Tape, depth: u32, swarm: u32, lines: &mut Vec<String>) {
        let mut i = 0;
        while t.more(i, 1, 3, 2, 5) {
            if i > 0 && !t.chance(1, 4) {
                lines.push(String::new());
            }
            self.block(t, depth, swarm, lines);
            i += 1;
        }
    }

    fn block(&self, t: &mut Tape, depth: u32, swarm: u32, lines: &mut Vec<String>) {
        if t.chance(1, 8) {
            lines.extend(self.attrs(t).split('\n').map(str::to_string));
            if t.chance(1, 8) {
                lines.push(String::new());
            }
        }
        const W: [[u32; 13]; 4] = [
            [10, 5, 5, 8, 3, 5, 4, 3, 3, 4, 3, 1, 2],
            [6, 1, 2, 14, 3, 2, 3, 3, 1, 2, 1, 1, 1],
            [6, 6, 2, 3, 1, 2, 10, 2, 8, 6, 3, 1, 1],
            [6, 4, 8, 4, 4, 8, 2, 8, 2, 2, 6, 2, 4],
        ];
        let kind = if depth > 3 {
            0
        } else {
            t.weighted(&W[swarm as usize % 4])
        };
        match kind {
            0 => self.para(t, lines),
            1 => {
                let h = "#".repeat(1 + t.weighted(&[6, 4, 2, 1, 1, 1, 1]));
                let mut s = String::new();
                if t.chance(1, 3) {
                    s.push_str(t.pick(&["Intro", "h h", "a", "1", "é è"]));
                } else {
                    self.inline(t, 1, &mut s);
                }
                for (i, l) in s.split('\n').enumerate() {
                    if i == 0 || t.chance(1, 2) {
                        lines.push(format!("{h} {l}"));
                    } else {
                        lines.push(l.to_string());
                    }
                }
            }
            2 => {
                let mut inner = Vec::new();
                self.blocks(t, depth + 1, swarm, &mut inner);
                let lazy = t.chance(1, 8);
                for (i, x) in inner.iter().enumerate() {
                    if x.is_empty() {
                        lines.push(">".into());
                    } else if lazy && i > 0 {
                        lines.push(x.clone());
                    } else {
                        lines.push(format!("> {x}"));
                    }
                }
            }
            3 | 4 => {
                // lists
                let ordered = kind == 4;
                let style = t.usize(9);
                let loose = t.chance(1, 3);
                let start = t.usize(4);
                let digits = if ordered && t.chance(1, 12) { 1 + t.usize(40) } else { 0 };
                let mut i = 0;
                while t.more(i, 1, 4, 3, 5) {
                    let marker = if digits > 0 {
                        // numbers and letters as long as one likes
                        let unit = ["9", "1", "0", "10", "z", "Z", "i", "M", "c"][style];
                        let n: String = unit.chars().cycle().take(digits).collect();
                        [format!("{n}."), format!("{n})"), format!("({n})")][start % 3].clone()
                    } else if ordered {
                        let n = start + i;
                        match style {
                            0..=2 => format!("{}.", n + 1),
                            3 => format!("{})", n),
                            4 => format!("({})", n + 1),
                            5 => format!("{}.", (b'a' + (n as u8) % 26) as char),
                            6 => format!("{})", (b'A' + (n as u8) % 26) as char),
                            7 => format!("{}.", ["i", "ii", "iii", "iv", "v", "vi", "vii", "x"][n % 8]),
                            _ => format!("({})", ["I", "II", "III", "IV", "V", "VI", "C", "M"][n % 8]),
                        }
                    } else {
                        match style {
                            0..=2 => "-".to_string(),
                            3 => "*".to_string(),
                            4 => "+".to_string(),
                            5 => "- [ ]".to_string(),
                            6 => "- [x]".to_string(),
                            7 => "* [X]".to_string(),
                            _ => ["-", "*"][i % 2].to_string(),
                        }
                    };
                    let mut inner = Vec::new();
                    self.blocks(t, depth + 1, swarm, &mut inner);
                    let pad = " ".repeat(if t.chance(1, 6) { 1 } else { 2.max(marker.len().min(4)) });
                    for (j, x) in inner.iter().enumerate() {
                        if j == 0 {
                            lines.push(format!("{marker} {x}"));
                        } else if x.is_empty() {
                            lines.push(String::new());
                        } else {
                            lines.push(format!("{pad}{x}"));
                        }
                    }
                    if loose {
                        lines.push(String::new());
                    }
                    i += 1;
                }
            }
            5 => {
                // code / raw block
                let f = *t.pick(&["```", "````", "~~~"]);
                let spec = *t.pick(&["", " rust", "=html", " =html", "=tex", " a\"b"]);
                lines.push(format!("{f}{spec}"));
                let mut i = 0;
                while t.more(i, 0, 4, 2, 3) {
                    lines.push(
                        t.pick(&["code", "<b>&", "", "  in", "```", "[^a]", "::: x", "\"q\""])
                            .to_string(),
                    );
                    i += 1;
                }
                if !t.chance(1, 6) {
                    lines.push(f.to_string());
                }
            }
            6 => self.footnote_def(t, depth, swarm, lines),
            7 => {
                let f = *t.pick(&[":::", "::::"]);
                let c = *t.pick(&["", " note", " c"]);
                lines.push(format!("{f}{c}"));
                self.blocks(t, depth + 1, swarm, lines);
                if !t.chance(1, 5) {
                    lines.push(f.to_string());
                }
            }
            8 => {
                // a paragraph dense in references
                let mut s = String::new();
                let mut i = 0;
                while t.more(i, 1, 8, 4, 5) {
                    match t.weighted(&[3, 3, 2]) {
                        0 => s.push_str(&format!("[^{}] ", self.label(t))),
                        1 => s.push_str(&format!("[t][{}] ", self.label(t))),
                        _ => s.push_str(&format!("[{}][] ", self.label(t))),
                    }
                    i += 1;
                }
                lines.push(s);
            }
            9 => self.link_def(t, lines),
            10 => {
                // table
                let cols = 1 + t.usize(3);
                let mut i = 0;
                while t.more(i, 1, 5, 2, 3) {
                    let mut row = String::from("|");
                    let sep = t.chance(1, 4);
                    for _ in 0..cols {
                        if sep {
                            row.push_str(t.pick(&["---", ":--", "--:", ":-:", "-"]));
                        } else {
                            let mut s = String::new();
                            self.inline(t, 2, &mut s);
                            row.push(' ');
                            row.push_str(&s.replace('\n', " "));
                            row.push(' ');
                        }
                        row.push('|');
                    }
                    lines.push(row);
                    i += 1;
                }
                if t.chance(1, 3) {
                    if t.chance(1, 2) {
                        lines.push(String::new());
                    }
                    let mut s = String::from("^ ");
                    self.inline(t, 2, &mut s);
                    lines.extend(s.split('\n').map(str::to_string));
                }
            }
            11 => lines.push(t.pick(&["---", "* * *", "----"]).to_string()),
            _ => {
                // description list
                let mut i = 0;
                while t.more(i, 1, 3, 1, 2) {
                    let mut s = String::from(": ");
                    self.inline(t, 2, &mut s);
                    lines.push(s.replace('\n', " "));
                    lines.push(String::new());
                    let mut inner = Vec::new();
                    self.blocks(t, depth + 1, swarm, &mut inner);
                    for x in inner {
                        if x.is_empty() {
                            lines.push(x);
                        } else {
                            lines.push(format!("  {x}"));
                        }
                    }
                    i += 1;
                }
            }
        }
    }
}

const SOUP: &[&str] = &[
    " ", "\n", "\n\n", "a", "`", "``", "```", "\n```\n", "~~~", "*", "_", "{", "}", "[", "]", "(", ")", "](", "][", "[^", "^",
    "!", "![", "~", "=", "{=", "=}", "{-", "-}", "{+", "+}", "{=html}", "\"", "'", "{\"", "\"}", "{'", "'}", ".", "...", "-",
    "--", "---", ":", "::", ":::", "\n:::\n", ": ", "|", "\n|", "|\n", "|-|", "\n^ ", "\\", "\\\n", "\\ ", "$", "$$`", "<",
    ">", "\n> ", "\n- ", "\n1. ", "\n# ", "#", "%", "{%", "{.", "{#", "a=b", "=\"", "\t", "  ", "é", "🦀", "@", "<a@b>", "<a:b>",
    "]:", "[a]: ", "[^a]: ", "\n[^a]: ", "x{.c}", "[ ]", "- [ ] ", "\r\n", "\0", "\n(i) ", "\nB) ", "\u{2028}",
];
