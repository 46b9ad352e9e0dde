//! An independent, direct reading of the lexical grammar over a complete text.
//! Used as the reference for what a lexer must return. Where the library's
//! choice is debatable against the standard, the model says `Gray` and the
//! token is not judged.
use joker::error::Error;
use joker::token::{CharCase, Exp, NumberSource, Radix, Sign, Token, TokenData};
use joker::track::Posn;
use joker::word::Name;
use ucd::Codepoint;

pub fn is_newline(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}
pub fn is_space(c: char) -> bool {
    matches!(c, '\t' | '\u{b}' | '\u{c}' | ' ' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{2006}' | '\u{2009}' | '\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}' | '\u{feff}')
}
fn id_start(c: char) -> bool {
    c == '$' || c == '_' || c.is_id_start()
}
fn id_part(c: char) -> bool {
    c == '$' || c == '_' || c == '\u{200c}' || c == '\u{200d}' || c.is_id_continue()
}

const RESERVED: &[&str] = &[
    "null", "true", "false", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "export",
    "extends", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "return", "super", "switch", "this", "throw", "try",
    "typeof", "var", "void", "while", "with", "enum",
];
const CONTEXTUAL: &[&str] = &[
    "arguments", "eval", "yield", "await", "implements", "interface", "let", "package", "private", "protected", "public", "static", "async",
    "from", "of", "get", "set", "target",
];

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Punc(&'static str),
    Reserved(String),
    /// (text, delivered as a contextual keyword)
    Ident(String, bool),
    /// None: value not judged.
    Num(Option<f64>),
    Str(Option<String>),
    RegExp(String, String),
    Eof,
}

#[derive(Debug, Clone, PartialEq)]
pub struct MTok {
    pub start: usize,
    pub end: usize,
    pub newline: Option<bool>,
    pub val: Val,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Res {
    Tok(MTok),
    Err(&'static str),
    Gray,
}

/// What a lexical error must say.
#[derive(Debug, Clone, PartialEq)]
pub enum Wrong {
    Comment,
    RegExp,
    Str,
    Exponent,
    /// A digit of this radix is missing.
    Digit(u32),
    WordEscape,
    /// None: too large to hold.
    CodePoint(Option<u32>),
    AfterNumber,
    Escaped(String),
    Illegal,
}

impl Wrong {
    pub fn probe(&self) -> &'static str {
        match *self {
            Wrong::Comment => "error: comment without end",
            Wrong::RegExp => "error: regular expression without end",
            Wrong::Str => "error: string without end",
            Wrong::Exponent => "error: exponent without digits",
            Wrong::Digit(2) => "error: binary digit missing",
            Wrong::Digit(8) => "error: octal digit missing",
            Wrong::Digit(_) => "error: hexadecimal digit missing",
            Wrong::WordEscape => "error: escape in a word",
            Wrong::CodePoint(_) => "error: code point",
            Wrong::AfterNumber => "error: number runs on",
            Wrong::Escaped(_) => "error: reserved word with escapes",
            Wrong::Illegal => "error: illegal character",
        }
    }
}

/// Line and column of every offset, counted directly from the text.
pub fn positions(text: &[char]) -> Vec<(u32, u32)> {
    let mut v = Vec::with_capacity(text.len() + 1);
    let (mut l, mut c) = (0, 0);
    for i in 0..text.len() {
        v.push((l, c));
        let crlf = text[i] == '\r' && text.get(i + 1) == Some(&'\n');
        if is_newline(text[i]) && !crlf {
            l += 1;
            c = 0;
        } else {
            c += 1;
        }
    }
    v.push((l, c));
    v
}

pub struct Model<'a> {
    pub text: &'a [char],
    pub pos: usize,
    /// Only trivia so far on this line; None: not judged.
    pub line_start: Option<bool>,
    /// A line terminator lies between the last token and `pos`; None: not judged.
    pub broken: Option<bool>,
    /// Where the construct that failed to scan begins, and whether it is a comment.
    bad: (usize, bool),
    /// What the error `next` returned must say, and the offset at which the
    /// text stops making sense.
    pub wrong: std::cell::RefCell<Option<(Wrong, usize)>>,
}

const PUNCS: &[&str] = &[
    ">>>=", "<<=", ">>=", ">>>", "...", "===", "!==", "{", "}", "(", ")", "[", "]", ";", ",", "<", ">", "<=", ">=", "==", "!=", "+", "-", "*",
    "%", "/", "++", "--", "<<", ">>", "&", "|", "^", "!", "~", "&&", "||", "?", ":", "=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", ".",
];

impl<'a> Model<'a> {
    pub fn new(text: &'a [char]) -> Model<'a> {
        Model { text, pos: 0, line_start: Some(true), broken: Some(false), bad: (0, false), wrong: std::cell::RefCell::new(None) }
    }

    fn err(&self, name: &'static str, w: Wrong, at: usize) -> Res {
        *self.wrong.borrow_mut() = Some((w, at));
        Res::Err(name)
    }

    fn at(&self, i: usize) -> Option<char> {
        self.text.get(self.pos + i).copied()
    }
    fn looking_at(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(i, c)| self.at(i) == Some(c))
    }

    /// Continue after a token the model does not judge, which ends at `pos`.
    pub fn resync(&mut self, pos: usize) {
        self.pos = pos.min(self.text.len());
        self.line_start = Some(false);
        self.broken = Some(false);
    }

    /// Continue at `pos` after something whose line breaks are not judged.
    pub fn resync_unknown(&mut self, pos: usize) {
        self.pos = pos.min(self.text.len());
        self.line_start = None;
        self.broken = None;
    }

    /// Continue at `pos` after the error `next` found.
    pub fn resync_error(&mut self, pos: usize) {
        let (start, comment) = self.bad;
        self.leave_broken(start, comment, pos);
    }

    /// Continue at `pos` after the source failed while scanning from `self.pos`.
    pub fn resync_failed(&mut self, pos: usize) {
        let pos = pos.min(self.text.len());
        if pos < self.pos {
            return self.resync_unknown(pos);
        }
        loop {
            if self.pos >= pos {
                return;
            }
            let (at, line_start, broken) = (self.pos, self.line_start, self.broken);
            let comment = match self.trivium() {
                Ok(true) if self.pos <= pos => {
                    // A line comment goes on to the end of its line.
                    let line = self.text[at] == '/' && self.text[at + 1] == '/' || matches!(self.text[at], '<' | '-');
                    if !line || self.pos < pos || self.at(0).map_or(false, is_newline) {
                        continue;
                    }
                    true
                }
                Ok(true) => true,
                Ok(false) => false,
                Err(None) => return self.resync_unknown(pos),
                Err(Some(_)) => true,
            };
            self.line_start = line_start;
            self.broken = broken;
            return self.leave_broken(at, comment, pos);
        }
    }

    fn leave_broken(&mut self, start: usize, comment: bool, pos: usize) {
        let pos = pos.min(self.text.len());
        if pos < start {
            return self.resync_unknown(pos);
        }
        let newline = self.text[start..pos].iter().any(|&c| is_newline(c));
        self.pos = pos;
        if comment {
            // A line break inside a comment counts, however the comment ends.
            if newline {
                self.broken = Some(true);
            }
            self.line_start = None;
        } else if start < pos {
            if newline {
                self.line_start = None;
                if self.broken == Some(false) {
                    self.broken = None;
                }
            } else {
                self.line_start = Some(false);
            }
        }
    }

    pub fn next(&mut self, operator: bool) -> Res {
        let r = self.scan(operator);
        if let Res::Tok(ref t) = r {
            self.pos = t.end;
            self.broken = Some(false);
        }
        r
    }

    /// Skip one white space character, line terminator or comment. `Err(None)`:
    /// whether this is a comment is not judged.
    fn trivium(&mut self) -> Result<bool, Option<&'static str>> {
        let c = match self.at(0) {
            Some(c) => c,
            None => return Ok(false),
        };
        if is_space(c) {
            self.pos += 1;
        } else if is_newline(c) {
            self.pos += 1;
            self.broken = Some(true);
            self.line_start = Some(true);
        } else if self.looking_at("//") || self.looking_at("<!--") {
            self.to_line_end();
        } else if self.looking_at("/*") {
            let start = self.pos;
            let mut newline = false;
            self.pos += 2;
            while !self.looking_at("*/") {
                match self.at(0) {
                    None => {
                        self.bad = (start, true);
                        self.err("", Wrong::Comment, self.pos);
                        return Err(Some("unterminated comment"));
                    }
                    Some(c) => newline |= is_newline(c),
                }
                self.pos += 1;
            }
            self.pos += 2;
            if newline {
                self.broken = Some(true);
                self.line_start = Some(true);
            }
        } else if self.looking_at("-->") && self.line_start != Some(false) {
            if self.line_start.is_none() {
                return Err(None);
            }
            self.to_line_end();
        } else {
            return Ok(false);
        }
        Ok(true)
    }

    fn to_line_end(&mut self) {
        while self.at(0).map_or(false, |c| !is_newline(c)) {
            self.pos += 1;
        }
    }

    fn scan(&mut self, operator: bool) -> Res {
        loop {
            match self.trivium() {
                Ok(true) => {}
                Ok(false) => break,
                Err(None) => return Res::Gray,
                Err(Some(e)) => return Res::Err(e),
            }
        }
        self.line_start = Some(false);
        let newline = self.broken;
        self.bad = (self.pos, false);
        let start = self.pos;
        let tok = |end: usize, val: Val| Res::Tok(MTok { start, end, newline, val });
        let c = match self.at(0) {
            None => return tok(start, Val::Eof),
            Some(c) => c,
        };
        if c == '/' && !operator {
            return self.regexp(start, newline);
        }
        if c == '"' || c == '\'' {
            return self.string(start, newline);
        }
        if c.is_ascii_digit() || (c == '.' && self.at(1).map_or(false, |d| d.is_ascii_digit())) {
            return self.number(start, newline);
        }
        if id_start(c) || c == '\\' {
            return self.word(start, newline);
        }
        // Later additions to the language that the library reads as two tokens.
        if self.looking_at("=>") || self.looking_at("**") || self.looking_at("?.") || self.looking_at("??") {
            return Res::Gray;
        }
        let best = PUNCS.iter().filter(|p| self.looking_at(p)).max_by_key(|p| p.len());
        match best {
            Some(p) => tok(start + p.chars().count(), Val::Punc(p)),
            // Zs characters the library does not treat as white space.
            None if matches!(c, '\u{2007}' | '\u{2008}' | '\u{180e}') => Res::Gray,
            None => self.err("illegal character", Wrong::Illegal, start),
        }
    }

    fn regexp(&self, start: usize, newline: Option<bool>) -> Res {
        let t = self.text;
        let mut i = start + 1;
        let mut class = false;
        loop {
            match t.get(i) {
                None => return self.err("unterminated regexp", Wrong::RegExp, i),
                Some('/') if !class => break,
                Some('\\') => match t.get(i + 1) {
                    None => return self.err("unterminated regexp", Wrong::RegExp, i + 1),
                    Some(&c) if is_newline(c) => return self.err("unterminated regexp", Wrong::RegExp, i + 1),
                    Some(_) => i += 2,
                },
                Some(&c) if is_newline(c) => return if class { Res::Gray } else { self.err("unterminated regexp", Wrong::RegExp, i) },
                Some('[') => {
                    class = true;
                    i += 1;
                }
                Some(']') => {
                    class = false;
                    i += 1;
                }
                Some(_) => i += 1,
            }
        }
        let pattern: String = t[start + 1..i].iter().collect();
        i += 1;
        let f = i;
        while t.get(i).map_or(false, |&c| id_part(c)) {
            i += 1;
        }
        if t.get(i) == Some(&'\\') {
            return Res::Gray;
        }
        let mut flags: Vec<char> = t[f..i].to_vec();
        flags.sort();
        Res::Tok(MTok { start, end: i, newline, val: Val::RegExp(pattern, flags.into_iter().collect()) })
    }

    /// The value of n hexadecimal digits, or where the first is missing.
    fn hex(&self, i: usize, n: usize) -> Result<u32, usize> {
        let mut v = 0;
        for k in 0..n {
            v = v * 16 + self.text.get(i + k).and_then(|c| c.to_digit(16)).ok_or(i + k)?;
        }
        Ok(v)
    }

    /// After `\u`: (code point, or None if absurdly large; index after it), or
    /// where it goes wrong.
    fn unicode(&self, i: usize) -> Result<(Option<u32>, usize), usize> {
        if self.text.get(i) == Some(&'{') {
            let mut j = i + 1;
            let mut v: u64 = 0;
            while let Some(d) = self.text.get(j).and_then(|c| c.to_digit(16)) {
                v = (v * 16 + d as u64).min(1 << 40);
                j += 1;
            }
            if j == i + 1 || self.text.get(j) != Some(&'}') {
                return Err(j);
            }
            Ok((if v > 0xffff_ffff { None } else { Some(v as u32) }, j + 1))
        } else {
            self.hex(i, 4).map(|v| (Some(v), i + 4))
        }
    }

    fn string(&self, start: usize, newline: Option<bool>) -> Res {
        let t = self.text;
        let quote = t[start];
        let mut i = start + 1;
        let mut v = String::new();
        let mut judged = true;
        loop {
            let c = match t.get(i) {
                None => return self.err("unterminated string", Wrong::Str, i),
                Some(&c) => c,
            };
            if c == quote {
                i += 1;
                break;
            }
            if is_newline(c) {
                return self.err("unterminated string", Wrong::Str, i);
            }
            if c != '\\' {
                v.push(c);
                i += 1;
                continue;
            }
            i += 1;
            match t.get(i) {
                None => return self.err("unterminated string", Wrong::Str, i),
                Some('0'..='7') => {
                    let mut code = 0;
                    let mut n = 0;
                    while n < 3 {
                        match t.get(i).and_then(|c| c.to_digit(8)) {
                            Some(d) if code * 8 + d <= 255 => {
                                code = code * 8 + d;
                                i += 1;
                                n += 1;
                            }
                            _ => break,
                        }
                    }
                    v.push(char::from_u32(code).unwrap());
                }
                Some('x') => match self.hex(i + 1, 2) {
                    Ok(code) => {
                        v.push(char::from_u32(code).unwrap());
                        i += 3;
                    }
                    Err(at) => return self.err("bad hex escape", Wrong::Digit(16), at),
                },
                Some('u') => match self.unicode(i + 1) {
                    Ok((code, j)) => {
                        match code.and_then(char::from_u32) {
                            Some(c) => v.push(c),
                            None => judged = false,
                        }
                        i = j;
                    }
                    Err(at) => return self.err("bad unicode escape", Wrong::Digit(16), at),
                },
                Some('\r') if t.get(i + 1) == Some(&'\n') => i += 2,
                Some(&c) if is_newline(c) => i += 1,
                Some(&c) => {
                    v.push(match c {
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'b' => '\u{8}',
                        'v' => '\u{b}',
                        'f' => '\u{c}',
                        c => c,
                    });
                    i += 1;
                }
            }
        }
        Res::Tok(MTok { start, end: i, newline, val: Val::Str(if judged { Some(v) } else { None }) })
    }

    fn digits(&self, mut i: usize, radix: u32) -> usize {
        while self.text.get(i).map_or(false, |c| c.is_digit(radix)) {
            i += 1;
        }
        i
    }

    fn number(&self, start: usize, newline: Option<bool>) -> Res {
        let t = self.text;
        let radix = match (t[start], t.get(start + 1)) {
            ('0', Some('x')) | ('0', Some('X')) => 16,
            ('0', Some('o')) | ('0', Some('O')) => 8,
            ('0', Some('b')) | ('0', Some('B')) => 2,
            _ => 10,
        };
        let (end, value);
        if radix != 10 {
            end = self.digits(start + 2, radix);
            if end == start + 2 {
                return self.err("missing digits", Wrong::Digit(radix), end);
            }
            value = radix_value(&t[start + 2..end], radix);
        } else {
            let mut i = self.digits(start, 10);
            let legacy = t[start] == '0' && i > start + 1 && t[start..i].iter().all(|c| c.is_digit(8));
            if legacy {
                value = radix_value(&t[start + 1..i], 8);
            } else {
                if t.get(i) == Some(&'.') {
                    i = self.digits(i + 1, 10);
                }
                if matches!(t.get(i), Some('e') | Some('E')) {
                    let mut j = i + 1;
                    if matches!(t.get(j), Some('+') | Some('-')) {
                        j += 1;
                    }
                    let k = self.digits(j, 10);
                    if k == j {
                        return self.err("missing exponent", Wrong::Exponent, k);
                    }
                    i = k;
                }
                let mut s: String = t[start..i].iter().collect();
                if s.starts_with('.') {
                    s.insert(0, '0');
                }
                s = s.replace(".e", ".0e").replace(".E", ".0e");
                if s.ends_with('.') {
                    s.push('0');
                }
                value = s.parse().ok();
            }
            end = i;
        }
        match t.get(end) {
            Some(&c) if id_start(c) || c.is_ascii_digit() => return self.err("junk after number", Wrong::AfterNumber, end),
            Some('\\') => return Res::Gray,
            _ => {}
        }
        Res::Tok(MTok { start, end, newline, val: Val::Num(value) })
    }

    fn word(&self, start: usize, newline: Option<bool>) -> Res {
        let t = self.text;
        let mut i = start;
        let mut text = String::new();
        let mut escaped = false;
        let mut gray = false;
        loop {
            match t.get(i) {
                Some('\\') => {
                    escaped = true;
                    if t.get(i + 1) != Some(&'u') {
                        return self.err("bad escape in word", Wrong::WordEscape, i + 1);
                    }
                    match self.unicode(i + 2) {
                        Err(at) => return self.err("bad escape in word", Wrong::Digit(16), at),
                        Ok((code, j)) => match code.and_then(char::from_u32) {
                            None => return self.err("bad code point in word", Wrong::CodePoint(code), j),
                            Some(c) => {
                                if !(if text.is_empty() { id_start(c) } else { id_part(c) }) {
                                    gray = true;
                                }
                                text.push(c);
                                i = j;
                            }
                        },
                    }
                }
                Some(&c) if id_part(c) => {
                    text.push(c);
                    i += 1;
                }
                _ => break,
            }
        }
        if gray {
            return Res::Gray;
        }
        let val = if RESERVED.contains(&&text[..]) {
            if escaped {
                return self.err("escaped reserved word", Wrong::Escaped(text), i);
            }
            Val::Reserved(text)
        } else {
            let ctx = !escaped && CONTEXTUAL.contains(&&text[..]);
            Val::Ident(text, ctx)
        };
        Res::Tok(MTok { start, end: i, newline, val })
    }
}

/// One lexical error of every kind.
pub fn every_error() -> Vec<Error> {
    vec![
        Error::IncompleteWordEscape(None),
        Error::UnterminatedComment,
        Error::UnterminatedRegExp(None),
        Error::MissingExponent(None),
        Error::UnterminatedString(None),
        Error::MissingBinaryDigits,
        Error::MissingOctalDigits,
        Error::MissingHexDigits,
        Error::IllegalChar('x'),
        Error::InvalidDigit('x'),
        Error::IllegalUnicode(1),
        Error::IdAfterNumber('x'),
        Error::DigitAfterNumber('1'),
        Error::ReservedWordWithEscapes(joker::word::Reserved::If),
    ]
}

pub fn kind_of(e: &Error) -> String {
    format!("{:?}", e).split('(').next().unwrap_or("").to_string()
}

/// What an error tells of itself: the short form, and what is printed before
/// any particulars.
#[allow(deprecated)]
pub fn words_of(e: &dyn std::error::Error) -> [String; 2] {
    [e.description().to_string(), e.to_string().split(": ").next().unwrap_or("").to_string()]
}

/// Does the error say what an error of another kind says?
pub fn same_words(e: &Error) -> Option<String> {
    thread_local!(static ALL: Vec<(String, [String; 2])> = every_error().iter().map(|e| (kind_of(e), words_of(e))).collect());
    let (k, w) = (kind_of(e), words_of(e));
    ALL.with(|all| {
        let other = all.iter().find(|x| x.0 != k && (x.1[0] == w[0] || x.1[1] == w[1]))?;
        Some(format!("{:?} says of itself what {} does: {:?}", e, other.0, w))
    })
}

/// What is wrong with what an error says.
pub fn judge_error(e: &Error, w: &Wrong, at: usize, text: &[char]) -> Option<String> {
    let here = text.get(at).copied();
    let ok = match (w, e, here) {
        (Wrong::Comment, &Error::UnterminatedComment, _) => true,
        (Wrong::RegExp, &Error::UnterminatedRegExp(c), _)
        | (Wrong::Str, &Error::UnterminatedString(c), _)
        | (Wrong::Exponent, &Error::MissingExponent(c), _)
        | (Wrong::WordEscape, &Error::IncompleteWordEscape(c), _) => c == here,
        (Wrong::Digit(_), &Error::InvalidDigit(c), Some(h)) => c == h,
        (Wrong::Digit(2), &Error::MissingBinaryDigits, None)
        | (Wrong::Digit(8), &Error::MissingOctalDigits, None)
        | (Wrong::Digit(16), &Error::MissingHexDigits, None) => true,
        (Wrong::CodePoint(v), &Error::IllegalUnicode(u), _) => v.map_or(true, |v| v == u),
        (Wrong::AfterNumber, &Error::IdAfterNumber(c), Some(h)) => c == h && !h.is_ascii_digit(),
        (Wrong::AfterNumber, &Error::DigitAfterNumber(c), Some(h)) => c == h && h.is_ascii_digit(),
        (Wrong::Escaped(word), &Error::ReservedWordWithEscapes(r), _) => r.name() == &word[..],
        (Wrong::Illegal, &Error::IllegalChar(c), Some(h)) => c == h,
        _ => false,
    };
    if ok {
        None
    } else {
        Some(format!("{:?}, where at offset {} the text has {:?} ({})", e, at, w, here.map_or("the end".to_string(), |c| format!("{:?}", c))))
    }
}

/// Exact below 2^53; larger values are judged only approximately.
fn radix_value(digits: &[char], radix: u32) -> Option<f64> {
    let mut v: u128 = 0;
    for d in digits {
        v = v * radix as u128 + d.to_digit(radix).unwrap() as u128;
        if v > 1 << 53 {
            return None;
        }
    }
    Some(v as f64)
}

pub fn punc_of(v: &TokenData) -> Option<&'static str> {
    use joker::token::TokenData::*;
    Some(match *v {
        LBrace => "{",
        RBrace => "}",
        LParen => "(",
        RParen => ")",
        LBrack => "[",
        RBrack => "]",
        Dot => ".",
        Ellipsis => "...",
        Semi => ";",
        Comma => ",",
        LAngle => "<",
        RAngle => ">",
        LEq => "<=",
        GEq => ">=",
        Eq => "==",
        NEq => "!=",
        StrictEq => "===",
        StrictNEq => "!==",
        Plus => "+",
        Minus => "-",
        Star => "*",
        Mod => "%",
        Slash => "/",
        Inc => "++",
        Dec => "--",
        LShift => "<<",
        RShift => ">>",
        URShift => ">>>",
        BitAnd => "&",
        BitOr => "|",
        BitXor => "^",
        Bang => "!",
        Tilde => "~",
        LogicalAnd => "&&",
        LogicalOr => "||",
        Question => "?",
        Colon => ":",
        Assign => "=",
        PlusAssign => "+=",
        MinusAssign => "-=",
        StarAssign => "*=",
        SlashAssign => "/=",
        ModAssign => "%=",
        LShiftAssign => "<<=",
        RShiftAssign => ">>=",
        URShiftAssign => ">>>=",
        BitAndAssign => "&=",
        BitOrAssign => "|=",
        BitXorAssign => "^=",
        Arrow => "=>",
        _ => return None,
    })
}

fn exp_text(e: &Option<Exp>) -> String {
    match *e {
        None => String::new(),
        Some(ref x) => format!(
            "{}{}{}",
            if x.e == CharCase::LowerCase { "e" } else { "E" },
            match x.sign {
                None => "",
                Some(Sign::Plus) => "+",
                Some(Sign::Minus) => "-",
            },
            x.value
        ),
    }
}

/// The spelling a number's recorded source stands for.
fn number_text(s: &NumberSource) -> String {
    let case = |c: CharCase, l: &str| if c == CharCase::LowerCase { l.to_string() } else { l.to_uppercase() };
    match *s {
        NumberSource::DecimalInt(ref m, ref e) => format!("{}{}", m, exp_text(e)),
        NumberSource::RadixInt(Radix::Bin(c), ref d) => format!("0{}{}", case(c, "b"), d),
        NumberSource::RadixInt(Radix::Oct(Some(c)), ref d) => format!("0{}{}", case(c, "o"), d),
        NumberSource::RadixInt(Radix::Oct(None), ref d) => d.clone(),
        NumberSource::RadixInt(Radix::Hex(c), ref d) => format!("0{}{}", case(c, "x"), d),
        NumberSource::Float(ref i, ref f, ref e) => {
            format!("{}.{}{}", i.as_ref().map_or("", |s| &s[..]), f.as_ref().map_or("", |s| &s[..]), exp_text(e))
        }
    }
}

/// What is wrong with a delivered token, judged by the model's token.
pub fn compare(tok: &Token, m: &MTok, text: &[char], at: &[(u32, u32)], base: usize) -> Option<(&'static str, String)> {
    let (s, e) = (tok.location.start, tok.location.end);
    if s.offset as usize != m.start - base || e.offset as usize != m.end - base {
        // Tell a wrong token from a wrongly placed one.
        let class = if judge_value(tok, m, text).is_some() { "value" } else { "span" };
        return Some((class, format!("token {} spans {}..{}, should be {:?} at {}..{}", show(tok), s.offset, e.offset, m.val, m.start - base, m.end - base)));
    }
    if let Some(x) = judge_value(tok, m, text) {
        return Some(("value", x));
    }
    if base == 0 {
        for (p, i, what) in [(s, m.start, "start"), (e, m.end, "end")] {
            if let Some(x) = line_col(p, at, i, what) {
                return Some(("linecol", format!("token {}: {}", show(tok), x)));
            }
        }
    }
    if let Some(nl) = m.newline {
        if tok.newline != nl {
            return Some(("newline", format!("token {} has newline flag {}, should be {}", show(tok), tok.newline, nl)));
        }
    }
    None
}

pub fn line_col(p: Posn, at: &[(u32, u32)], i: usize, what: &str) -> Option<String> {
    let (l, c) = at[i];
    if (p.line, p.column) != (l, c) {
        return Some(format!("{} at offset {} is line {} column {}, should be line {} column {}", what, i, p.line, p.column, l, c));
    }
    None
}

fn judge_value(tok: &Token, m: &MTok, text: &[char]) -> Option<String> {
    let src: String = text[m.start..m.end].iter().collect();
    let bad = || Some(format!("token {} should be {:?} spelled {:?}", show(tok), m.val, src));
    match (&tok.value, &m.val) {
        (&TokenData::EOF, Val::Eof) => None,
        (&TokenData::Reserved(r), Val::Reserved(t)) => if r.name() == &t[..] { None } else { bad() },
        (&TokenData::Identifier(ref n), Val::Ident(t, ctx)) => {
            let atom = match *n {
                Name::Atom(_) => true,
                Name::String(_) => false,
            };
            if n.as_ref() == &t[..] && atom == *ctx { None } else { bad() }
        }
        (&TokenData::Number(ref n), Val::Num(v)) => {
            if let Some(v) = v {
                if n.value.to_bits() != v.to_bits() {
                    return bad();
                }
            }
            match n.source {
                Some(ref s) if number_text(s) == src => None,
                ref s => Some(format!("number spelled {:?} records source {:?}", src, s)),
            }
        }
        (&TokenData::String(ref s), Val::Str(v)) => {
            if let Some(v) = v {
                if s.value != *v {
                    return bad();
                }
            }
            match s.source {
                Some(ref x) if *x == src => None,
                ref x => Some(format!("string spelled {:?} records source {:?}", src, x)),
            }
        }
        (&TokenData::RegExp(ref r), Val::RegExp(p, f)) => {
            let mut fl = r.flags.clone();
            fl.sort();
            if r.pattern == *p && fl.into_iter().collect::<String>() == *f { None } else { bad() }
        }
        (v, Val::Punc(p)) => if punc_of(v) == Some(p) { None } else { bad() },
        _ => bad(),
    }
}

pub fn show(t: &Token) -> String {
    let mut s = format!("{:?}", t.value);
    if s.chars().count() > 80 {
        s = s.chars().take(80).collect::<String>() + "…";
    }
    s
}

/// Exact equality, including the recorded spellings that `==` ignores.
pub fn same_token(a: &Token, b: &Token) -> bool {
    a.location == b.location
        && a.newline == b.newline
        && match (&a.value, &b.value) {
            (&TokenData::Number(ref x), &TokenData::Number(ref y)) => x.value.to_bits() == y.value.to_bits() && x.source == y.source,
            (&TokenData::String(ref x), &TokenData::String(ref y)) => x.value == y.value && x.source == y.source,
            (&TokenData::RegExp(ref x), &TokenData::RegExp(ref y)) => x.pattern == y.pattern && x.flags == y.flags,
            (x, y) => x == y,
        }
}
