//! Random texts, faults and client histories. Everything about a run is drawn
//! per run (swarm style): which kinds of text occur, which faults are enabled,
//! how the client behaves.
use crate::actor::{expand, Actor, Fault, Goal, Op, Seg};
use simcore::rng::Rng;

const RESERVED: &[&str] = &[
    "null", "true", "false", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "export",
    "extends", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "return", "super", "switch", "this", "throw", "try",
    "typeof", "var", "void", "while", "with", "enum",
];
const CONTEXTUAL: &[&str] = &[
    "arguments", "eval", "yield", "await", "implements", "interface", "let", "package", "private", "protected", "public", "static", "async",
    "from", "of", "get", "set", "target", "constructor", "prototype",
];
const PUNCS: &[&str] = &[
    "{", "}", "(", ")", "[", "]", ";", ",", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "+", "-", "*", "%", "/", "++", "--", "<<", ">>", ">>>",
    "&", "|", "^", "!", "~", "&&", "||", "?", ":", "=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", ".", "...", "..",
    "=>", "-->", "<!-", "<!", "--",
];
const SPACES: &[&str] = &[" ", " ", " ", "\t", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{2003}", "\u{3000}", "\u{1680}", "\u{200a}", "\u{202f}", "\u{205f}"];
const NEWLINES: &[&str] = &["\n", "\n", "\r\n", "\r", "\u{2028}", "\u{2029}", "\n\r", "\r\r\n", "\n\n"];
const GARBAGE: &[&str] = &["@", "#", "`", "\u{0}", "\u{1}", "\u{7f}", "\u{80}", "\u{fffd}", "\u{180e}", "\u{2007}", "\u{200b}", "\u{ffff}", "\u{10ffff}", "é", "¬", "𝒳", "\u{301}", "\\", "\u{85}"];
const STARTS: &[char] = &['a', 'b', 'x', 'Z', '$', '_', 'é', 'λ', '漢', '𝒳', 'ª'];
const PARTS: &[char] = &['a', 'e', 'x', '0', '7', '9', '$', '_', 'é', '漢', '\u{200c}', '\u{200d}', '\u{301}', '٣', '𝟘', 'E', 'n'];

pub const KINDS: usize = 17;
#[derive(Clone)]
pub struct Mix {
    w: [u32; KINDS],
    /// Percent of pieces separated by a blank.
    blank: usize,
    long: usize,
    /// Faulty tokens of every kind.
    faulty: bool,
}

fn pick_s(r: &mut Rng, xs: &[&str]) -> String {
    r.pick(xs).to_string()
}

fn escape(r: &mut Rng, c: u32) -> String {
    match r.below(4) {
        0 if c < 0x10000 => format!("\\u{:04x}", c),
        1 if c < 0x10000 => format!("\\u{:04X}", c),
        2 => format!("\\u{{{:x}}}", c),
        _ => format!("\\u{{{}{:X}}}", "0".repeat(r.geometric(2, 12)), c),
    }
}

fn ident(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = r.geometric(3, 12);
    let esc = r.pct(15);
    let c = *r.pick(STARTS);
    if esc && r.pct(40) { s += &escape(r, c as u32) } else { s.push(c) }
    for _ in 0..n {
        let c = *r.pick(PARTS);
        if esc && r.pct(30) { s += &escape(r, c as u32) } else { s.push(c) }
    }
    s
}

fn digits(r: &mut Rng, set: &str, lo: usize, mean: usize) -> String {
    let set: Vec<char> = set.chars().collect();
    (0..lo + r.geometric(mean, 24)).map(|_| *r.pick(&set)).collect()
}

fn number(r: &mut Rng) -> String {
    let dec = "0123456789";
    let exp = |r: &mut Rng| {
        if r.pct(35) {
            format!("{}{}{}", r.pick(&["e", "E"]), r.pick(&["", "+", "-"]), digits(r, dec, 1, 1))
        } else {
            String::new()
        }
    };
    match r.below(9) {
        0 => format!("0{}{}", r.pick(&["x", "X"]), digits(r, "0123456789abcdefABCDEF", 1, 4)),
        1 => format!("0{}{}", r.pick(&["o", "O"]), digits(r, "01234567", 1, 4)),
        2 => format!("0{}{}", r.pick(&["b", "B"]), digits(r, "01", 1, 6)),
        3 => format!("0{}", digits(r, "01234567", 1, 2)),
        4 => format!("0{}", digits(r, dec, 1, 2)),
        5 => format!(".{}{}", digits(r, dec, 1, 3), exp(r)),
        6 => format!("{}.{}{}", digits(r, dec, 1, 2), digits(r, dec, 0, 2), exp(r)),
        _ => format!("{}{}", digits(r, dec, 1, 3), exp(r)),
    }
}

fn bad_number(r: &mut Rng) -> String {
    match r.below(6) {
        0 => format!("{}{}", number(r), r.pick(&["a", "x", "9", "$", "é", "\\u0061", "_1"])),
        1 => pick_s(r, &["0x", "0b", "0o", "0X", "0B", "0O", "0xg", "0xG", "0X@", "0x`", "0x:", "0b2", "0B/", "0o8", "0O:"]),
        2 => pick_s(r, &["1e", "1e+", "1E-", "1.e", ".5e", "0e", "1.5E+"]),
        3 => pick_s(r, &["08", "09.5", "07.5", "010.", "00", "08e1", "1..a", "1...", "0.0.0"]),
        4 => "123456789012345678901234567890".into(),
        _ => "1e400".into(),
    }
}

fn string_part(r: &mut Rng, ok: bool) -> String {
    match r.below(if ok { 13 } else { 16 }) {
        0 => escape(r, 0x41),
        1 => { let c = *r.pick(&[0x20u32, 0x22, 0x27, 0x5c, 0xa, 0x7ff, 0xfffd, 0x1f600, 0x10ffff]); escape(r, c) }
        2 => format!("\\x{:02x}", r.below(256)),
        3 => { let n = r.range(1, 4); format!("\\{}", digits(r, "01234567", n, 0)) }
        4 => format!("\\{}", r.pick(NEWLINES)),
        5 => format!("\\{}", r.pick(&["n", "r", "t", "b", "v", "f", "\\", "\"", "'", "a", "8", "9", "é", "/"])),
        6 => pick_s(r, &["//", "/*", "*/", "<!--", "-->", "'\"", "${}"]),
        7 => pick_s(r, &["é", "漢", "𝒳", "\t", "\u{0}", "\u{feff}"]),
        8 => pick_s(r, &["\\'", "\\\""]),
        13 => pick_s(r, &["\\x", "\\x1", "\\xg1", "\\xG1", "\\x1G", "\\x@0", "\\x:0", "\\x0/", "\\x`0", "\\uG000", "\\u00G0", "\\u{G}", "\\u{1G}", "\\u{:}", "\\u", "\\u{", "\\u{}", "\\u{g}", "\\u12", "\\u{110000}", "\\u{123456789abcdef0123456789}", "\\ud800", "\\u{d800}"]),
        14 => pick_s(r, NEWLINES),
        15 => "\\".into(),
        _ => digits(r, "abc xyz019", 1, 3),
    }
}

fn string(r: &mut Rng, ok: bool) -> String {
    let q = *r.pick(&['"', '\'']);
    let mut s = String::new();
    s.push(q);
    for _ in 0..r.geometric(3, 10) {
        let p = string_part(r, ok);
        for (i, c) in p.chars().enumerate() {
            // An unescaped quote of the same kind would end the string early.
            if c == q && ok && !(i > 0 && p.starts_with('\\')) {
                continue;
            }
            s.push(c);
        }
    }
    s.push(q);
    s
}

/// A word with a broken escape, a torn radix number, a broken regular expression.
fn faulty(r: &mut Rng) -> String {
    let bad = *r.pick(&['g', 'G', '@', '`', '/', ':', '"', '}', ' ', '\n', '\u{2028}', 'é', '{', '\\', 'u', ';']);
    let stem = if r.pct(50) { String::new() } else { ident(r) };
    let hex = "0123456789abcdefABCDEF";
    match r.below(7) {
        0 => format!("{}\\{}", stem, bad),
        1 => { let n = r.below(4); format!("{}\\u{}{}", stem, digits(r, hex, n, 0), bad) }
        2 => format!("{}\\u{{{}{}", stem, digits(r, hex, 0, 2), bad),
        3 => { let c = *r.pick(&["110000", "d800", "dfff", "ffffffff", "7fffffff"]); format!("{}\\u{{{}}}", stem, c) }
        4 => {
            let w = pick_s(r, RESERVED);
            let k = r.below(w.len());
            let c = w.as_bytes()[k] as u32;
            format!("{}{}{}", &w[..k], escape(r, c), &w[k + 1..])
        }
        5 => {
            let (f, ok) = *r.pick(&[("0x", hex), ("0X", hex), ("0o", "01234567"), ("0O", "01234567"), ("0b", "01"), ("0B", "01")]);
            let end = *r.pick(&["", "g", "G", "@", "`", "/", ":", "8", "9", "2", "_", "é", ".", " ", "\n"]);
            format!("{}{}{}", f, digits(r, ok, 0, 1), end)
        }
        _ => {
            let end = *r.pick(&["", "\n", "\u{2029}", "\\", "\\\n", "[", "[a\\", "\r\n"]);
            format!("/{}{}", digits(r, "abc.+?", 1, 1), end)
        }
    }
}

fn regexp(r: &mut Rng) -> String {
    let mut s = String::from("/");
    for _ in 0..1 + r.geometric(3, 8) {
        s += &match r.below(8) {
            0 => pick_s(r, &["[/]", "[a-z]", "[^]", "[\\]]", "[[]", "[*/]", "[", "]"]),
            1 => pick_s(r, &["\\/", "\\\\", "\\[", "\\d", "\\u0041", "\\]"]),
            2 => pick_s(r, &["é", "𝒳", "'", "\"", " ", "=", ">"]),
            3 if s.len() > 1 => "*".into(),
            _ => digits(r, "abcxyz.+?()|^$", 1, 2),
        };
    }
    s.push('/');
    for _ in 0..r.geometric(1, 5) {
        s.push(*r.pick(&['g', 'i', 'm', 'u', 'y', 'x', '1', '$', 'é']));
    }
    s
}

fn block_comment(r: &mut Rng) -> String {
    let mut s = String::from("/*");
    for _ in 0..r.geometric(2, 8) {
        s += &match r.below(7) {
            0 => pick_s(r, NEWLINES),
            1 => pick_s(r, &["*", "**", "/", "//", "/*", "* /", "-->", "<!--"]),
            2 => pick_s(r, &["é", "𝒳", "'", "\"", "\\"]),
            _ => digits(r, "abc xyz019", 1, 3),
        };
    }
    s = s.replace("*/", "* /");
    s[0..2].to_string() + &s[2..] + "*/"
}

fn line_comment(r: &mut Rng, open: &str) -> String {
    let mut s = String::from(open);
    for _ in 0..r.geometric(1, 6) {
        s += &match r.below(4) {
            0 => pick_s(r, &["*/", "/*", "//", "'", "\"", "\\", "-->", "<!--", "é", "𝒳"]),
            _ => digits(r, "abc xyz019", 1, 3),
        };
    }
    s
}

fn torn(r: &mut Rng) -> String {
    let s: Vec<char> = match r.below(6) {
        0 => string(r, true),
        1 => regexp(r),
        2 => block_comment(r),
        3 => number(r),
        4 => ident(r),
        _ => pick_s(r, &["<!--", "-->", "...", ">>>=", "===", "/*\n*/-->", "\\u{61}", "\\u0061"]),
    }
    .chars()
    .collect();
    let n = r.range(1, s.len().max(1));
    s[..n.min(s.len())].iter().collect()
}

fn long(r: &mut Rng) -> Seg {
    let n = *r.pick(&[200usize, 1000, 4000, 5000, 20000, 66000]) as u32 + r.below(20) as u32;
    match r.below(9) {
        0 => Seg::R(" ".into(), n),
        1 => Seg::R(pick_s(r, NEWLINES), n),
        2 => Seg::R(pick_s(r, SPACES) + &pick_s(r, NEWLINES), n / 2),
        3 => Seg::R("a".into(), n),
        4 => Seg::R("0".into(), n.min(2000)),
        5 => Seg::R("é".into(), n),
        6 => Seg::R("x;".into(), n / 4),
        7 => Seg::R("/**/".into(), n / 4),
        _ => Seg::R("\t \u{a0}".into(), n / 3),
    }
}

/// A long token or comment made of several segments.
fn long_piece(r: &mut Rng, out: &mut Vec<Seg>) {
    match r.below(6) {
        0 => {
            out.push(Seg::S("/*".into()));
            let n = *r.pick(&[300u32, 5000, 70000]);
            out.push(Seg::R(pick_s(r, &["x", "*", "\n", "\r\n", " "]), n));
            out.push(Seg::S("*/".into()));
        }
        1 => {
            out.push(Seg::S(pick_s(r, &["//", "<!--"])));
            let n = *r.pick(&[300u32, 5000, 70000]);
            out.push(Seg::R("y".into(), n));
            out.push(Seg::S("\n".into()));
        }
        2 => {
            out.push(Seg::S("'".into()));
            let n = *r.pick(&[300u32, 5000, 30000]);
            out.push(Seg::R(pick_s(r, &["z", "\\\n", "\\r", "é", "\\u0041"]), n));
            out.push(Seg::S("'".into()));
        }
        3 => {
            out.push(Seg::S("'\\u{".into()));
            let n = *r.pick(&[9u32, 40, 3000]);
            out.push(Seg::R(pick_s(r, &["0", "f"]), n));
            out.push(Seg::S("}'".into()));
        }
        4 => {
            out.push(Seg::S("/".into()));
            let n = *r.pick(&[300u32, 5000]);
            out.push(Seg::R(pick_s(r, &["r", "[a]", "\\/"]), n));
            out.push(Seg::S("/g ".into()));
        }
        _ => {
            let s = long(r);
            out.push(s)
        }
    }
}

fn piece(r: &mut Rng, m: &Mix) -> String {
    match r.weighted(&m.w) {
        0 => ident(r),
        1 => pick_s(r, RESERVED),
        2 => pick_s(r, CONTEXTUAL),
        3 => number(r),
        4 => string(r, true),
        5 => regexp(r),
        6 => pick_s(r, PUNCS),
        7 => pick_s(r, SPACES),
        8 => pick_s(r, NEWLINES),
        9 => line_comment(r, "//") + &pick_s(r, NEWLINES),
        10 => block_comment(r),
        11 => {
            let open = pick_s(r, &["<!--", "-->"]);
            line_comment(r, &open) + &pick_s(r, NEWLINES)
        }
        12 => pick_s(r, GARBAGE),
        13 => torn(r),
        14 if m.faulty && r.pct(70) => faulty(r),
        14 => bad_number(r),
        15 => string(r, false),
        // Reserved or contextual words spelled with an escape, or prolonged.
        _ => {
            let w = if r.pct(50) { pick_s(r, RESERVED) } else { pick_s(r, CONTEXTUAL) };
            match r.below(3) {
                0 => {
                    let k = r.below(w.len());
                    let c = w.as_bytes()[k] as u32;
                    format!("{}{}{}", &w[..k], escape(r, c), &w[k + 1..])
                }
                1 => w.clone() + &pick_s(r, &["s", "1", "_", "$", "\u{200d}", "é"]),
                _ => w[..r.range(1, w.len())].to_string(),
            }
        }
    }
}

pub struct Profile {
    pub mix: Mix,
    pub pieces: usize,
}

pub fn profile(r: &mut Rng, prop: &str) -> Profile {
    // (weights for the seventeen kinds)
    let base: [u32; KINDS] = match prop {
        "C07" => [6, 2, 2, 2, 2, 2, 8, 8, 14, 6, 14, 12, 1, 2, 0, 0, 1],
        "C05" => [6, 2, 2, 4, 3, 3, 10, 6, 4, 3, 5, 4, 1, 3, 1, 1, 1],
        "C08" => [5, 2, 2, 8, 8, 8, 10, 3, 3, 3, 4, 4, 1, 6, 2, 1, 2],
        "C09" => [6, 2, 2, 4, 4, 3, 8, 3, 4, 2, 4, 3, 4, 8, 4, 4, 2],
        "C26" => [4, 1, 1, 3, 3, 2, 5, 4, 3, 1, 2, 1, 4, 10, 10, 8, 5],
        "C04" => [6, 2, 2, 4, 5, 3, 8, 6, 10, 4, 6, 4, 1, 2, 1, 1, 1],
        _ => [8, 4, 4, 6, 6, 4, 12, 5, 6, 3, 5, 3, 2, 3, 2, 2, 2],
    };
    let mut w = base;
    // Switch off a random subset of kinds, boost another.
    for x in w.iter_mut() {
        match r.below(10) {
            0..=2 => *x = 0,
            3 => *x *= 5,
            _ => {}
        }
    }
    if r.pct(50) {
        for k in [12, 13, 14, 15] {
            w[k] = if prop == "C01" || prop == "C09" || prop == "C26" { w[k] } else { 0 };
        }
    }
    if w.iter().all(|&x| x == 0) {
        w = base;
    }
    let blank = *r.pick(&[0, 10, 40, 80]);
    let long = match prop {
        "C04" | "C05" => 12,
        "C01" => 5,
        _ => 2,
    };
    let long = if r.pct(long) { 10 } else { 0 };
    Profile { mix: Mix { w, blank, long, faulty: prop == "C26" }, pieces: 1 + r.geometric(9, 40) }
}

pub fn text(r: &mut Rng, p: &Profile) -> Vec<Seg> {
    let mut v = vec![];
    let mut longs = 0;
    for _ in 0..p.pieces {
        if r.pct(p.mix.long) && longs < 2 {
            longs += 1;
            long_piece(r, &mut v);
        } else {
            v.push(Seg::S(piece(r, &p.mix)));
        }
        if r.pct(p.mix.blank) {
            let s = if r.pct(85) { " ".to_string() } else { pick_s(r, NEWLINES) };
            v.push(Seg::S(s));
        }
    }
    v
}

/// A place in the text, inside a piece more often than between two.
pub fn place(r: &mut Rng, segs: &[Seg]) -> usize {
    let total = expand(segs).len();
    if segs.is_empty() || r.pct(20) {
        return r.below(total + 1);
    }
    let k = r.below(segs.len());
    let start = expand(&segs[..k]).len();
    let len = expand(&segs[k..k + 1]).len();
    if r.pct(30) { start + len } else { start + r.below(len + 1) }
}

fn goal(r: &mut Rng) -> Goal {
    *r.pick(&[Goal::Auto, Goal::Auto, Goal::Rand, Goal::Oper])
}

fn corrupt(r: &mut Rng, t: &[Seg], out: &mut Vec<Fault>) {
    let at = place(r, t);
    out.push(match r.below(5) {
        // A neighbour in the code table: the edges of every range of characters.
        4 => {
            let text = expand(t);
            let near = text.get(at).map_or(0x40, |&c| c as u32);
            let to = if r.pct(50) { near + 1 } else { near.saturating_sub(1) };
            Fault::Flip { at, to: char::from_u32(to).unwrap_or('G') }
        }
        0 => Fault::Flip { at, to: *r.pick(&['"', '\'', '\\', '/', '*', '\n', '\r', '\u{2028}', ' ', 'a', '0', '.', '-', '<', '>', '[', ']', '{', '@', '\u{0}', '𝒳', 'é']) },
        1 => Fault::Drop { at },
        2 => Fault::Dup { at },
        _ => Fault::Swap { at },
    });
}

pub fn faults(r: &mut Rng, prop: &str, t: &[Seg]) -> Vec<Fault> {
    let mut v = vec![];
    // Percentages: corruption, early end, stall, source failure, unusable after the end.
    let (c, e, s, p, u) = match prop {
        "C01" => (40, 35, 20, 20, 25),
        "C02" => (15, 15, 10, 0, 10),
        "C03" => (10, 35, 60, 5, 50),
        "C04" => (25, 25, 10, 10, 10),
        "C05" => (10, 20, 20, 10, 20),
        "C06" => (15, 20, 10, 25, 10),
        "C07" => (30, 25, 10, 5, 5),
        "C09" => (30, 15, 10, 65, 20),
        "C26" => (35, 45, 15, 10, 10),
        _ => (0, 0, 0, 0, 0),
    };
    if r.pct(c) {
        for _ in 0..1 + r.geometric(1, 3) {
            corrupt(r, t, &mut v);
        }
    }
    if r.pct(e) {
        v.push(Fault::Eof { at: place(r, t) });
    }
    if r.pct(s) {
        for _ in 0..1 + r.geometric(1, 2) {
            v.push(Fault::Stall { at: place(r, t), n: 1 + r.geometric(1, 4) as u32 });
        }
    }
    if r.pct(p) {
        for _ in 0..1 + r.geometric(1, 4) {
            v.push(Fault::Panic { at: place(r, t) });
        }
    }
    if r.pct(u) {
        v.push(Fault::PanicAfterEnd);
    }
    v
}

pub fn ops(r: &mut Rng, prop: &str) -> Vec<Op> {
    // read peek skip unread reread repeek posn drain cancel migrate
    let mut w: [u32; 10] = match prop {
        "C02" | "C07" => [8, 6, 2, 8, 5, 3, 1, 1, 0, 0],
        "C03" => [8, 6, 2, 5, 3, 3, 2, 6, 0, 1],
        "C05" => [8, 6, 3, 4, 3, 2, 4, 1, 2, 0],
        "C06" => [8, 4, 2, 4, 2, 2, 2, 2, 1, 2],
        "C09" => [8, 6, 2, 6, 4, 3, 2, 2, 3, 1],
        "C04" => [8, 4, 3, 3, 2, 1, 4, 2, 1, 0],
        _ => [8, 4, 2, 4, 3, 2, 2, 2, 1, 1],
    };
    for x in w.iter_mut() {
        match r.below(8) {
            0 => *x = 0,
            1 => *x *= 4,
            _ => {}
        }
    }
    if w[0] == 0 {
        w[0] = 2;
    }
    let g = if r.pct(50) { Some(goal(r)) } else { None };
    let n = r.geometric(16, 60);
    (0..n)
        .map(|_| {
            let g = g.unwrap_or_else(|| goal(r));
            match r.weighted(&w) {
                0 => Op::Read(g),
                1 => Op::Peek(g),
                2 => Op::Skip(g),
                3 => Op::Unread,
                4 => Op::Reread,
                5 => Op::Repeek,
                6 => Op::Posn,
                7 => Op::Drain(g, 1 + r.geometric(6, 60) as u32),
                8 => Op::Cancel,
                _ => Op::Migrate,
            }
        })
        .collect()
}

/// A token, or trivia before one, of a length at which anything but steady
/// work per character is a hang.
pub fn marathon(r: &mut Rng) -> Actor {
    let n = *r.pick(&[300_000u32, 1_000_000, 3_000_000]);
    let (pre, item, post) = *r.pick(&[
        ("", "a", " b"),
        ("", "\u{e9}", ""),
        ("_", "\\u0061", ""),
        ("", "\\u{61}", ";"),
        ("if", "x", "("),
        ("'", "s", "'"),
        ("\"", "\\n", "\""),
        ("'", "\\\r\n", "'"),
        ("'", "\\u{1F600}", "'"),
        ("'", "\u{1F600}", ""),
        ("/", "r", "/g"),
        ("/[", "/\\]", "]/"),
        ("/", "[/]", ""),
        ("/a/", "g", ""),
        ("/*", "*", "*/ c"),
        ("/*", "\n", "*/ c"),
        ("/*", "x/", ""),
        ("//", "y", "\nc"),
        ("<!--", "-->", "\rc"),
        ("-->", "z", ""),
        ("", " ", "c"),
        ("", "\n", "-->d\nc"),
        ("", "\r\n\t\u{2029}", "c"),
        ("", "/**/", "c"),
        ("", "/*\n*/", "--> d"),
        ("", "//\n", "c"),
        ("", "-->\n", "c"),
        ("", "<!--\r", "c"),
        ("1.", "0", ""),
        ("", "7", ".5"),
        ("0.", "3", "e2"),
        ("1e", "0", "1"),
        ("0x", "0", "1"),
        ("0", "7", ""),
        ("", ";", ""),
        ("", "<<<", ""),
        ("", "a ", ""),
        ("", "'s'\n", ""),
    ]);
    let n = n / item.chars().count() as u32;
    // Radix literals and exponents are worked out digit by digit in floating point.
    let n = if pre.starts_with(|c: char| c.is_ascii_digit()) || item == "7" { n.min(300_000) } else { n };
    // Many tokens cost more than one long one.
    let n = if matches!(item, ";" | "<<<" | "a " | "'s'\n") { n.min(150_000) } else { n };
    let mut text = vec![Seg::S(pre.into()), Seg::R(item.into(), n), Seg::S(post.into())];
    if r.pct(30) {
        text.insert(0, Seg::S("a\n".into()));
    }
    let ops = match r.below(3) {
        0 => vec![],
        1 => vec![Op::Peek(Goal::Rand), Op::Repeek, Op::Read(Goal::Rand), Op::Unread, Op::Peek(Goal::Oper), Op::Read(Goal::Rand)],
        _ => vec![Op::Read(Goal::Rand), Op::Peek(Goal::Rand), Op::Unread, Op::Read(Goal::Rand), Op::Skip(Goal::Auto)],
    };
    Actor { text, faults: vec![], ops, mem: true }
}

pub fn actor(r: &mut Rng, prop: &str) -> Actor {
    let p = profile(r, prop);
    let text = text(r, &p);
    let faults = faults(r, prop, &text);
    let mut ops = ops(r, prop);
    if prop == "C03" {
        // Get to the end early in half the runs, then keep calling.
        if r.pct(50) {
            let g = goal(r);
            ops.insert(0, Op::Drain(g, 200));
        }
        // Two drains in a row cross an error on the way.
        if r.pct(30) {
            let g = goal(r);
            ops.insert(0, Op::Drain(g, 200));
        }
    }
    let mem = matches!(prop, "C05") || (prop == "C01" && r.pct(20));
    Actor { text, faults, ops, mem }
}
