//! Programs the simulated parsers are fed: a small syntax tree, a generator of
//! valid programs of the supported grammar, its spelling as source text (a list
//! of tokens joined by varied separators) and as ESTree JSON.
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum E {
    Id(u32),
    /// A contextual keyword used as an identifier.
    Name(String),
    Num(u32),
    Str(u32),
    Re(u32),
    /// this, null, true, false
    Lit(u8),
    Arr(Vec<Option<A>>),
    Obj(Vec<P>),
    Fun(Box<F>),
    Seq(Vec<E>),
    Un(u8, Box<E>),
    Upd { prefix: bool, inc: bool, arg: Box<E> },
    Bin(u8, Box<E>, Box<E>),
    /// Operator 0 is plain assignment (whose target may be a pattern).
    Asg(u8, Box<E>, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>),
    Call(Box<E>, Vec<A>),
    New(Box<E>, Option<Vec<A>>),
    Dot(Box<E>, K),
    Brk(Box<E>, Box<E>),
    Target,
    /// Written in parentheses.
    Par(Box<E>),
    /// A fragment as it stands (only in wild programs).
    Raw(String),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum A {
    E(E),
    Spread(E),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum K {
    Id(u32),
    Word(String),
    Str(u32),
    Num(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum P {
    Init(K, E),
    Get(K, Vec<S>),
    Set(K, u32, Vec<S>),
    Method(K, F),
    Short(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct F {
    pub id: Option<u32>,
    pub params: Vec<u32>,
    pub rest: Option<u32>,
    pub gen: bool,
    pub body: Vec<S>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum H {
    Decl(u8, Vec<(u32, Option<E>)>),
    E(E),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum L {
    Decl(u8, u32),
    VarInit(u32, E),
    E(E),
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum S {
    Empty,
    Block(Vec<S>),
    /// var, let, const
    Decl(u8, Vec<(u32, Option<E>)>),
    Expr(E),
    If(E, Box<S>, Option<Box<S>>),
    Label(u32, Box<S>),
    Break(Option<u32>),
    Cont(Option<u32>),
    With(E, Box<S>),
    Switch(E, Vec<(Option<E>, Vec<S>)>),
    Ret(Option<E>),
    Throw(E),
    Try(Vec<S>, Option<(u32, Vec<S>)>, Option<Vec<S>>),
    While(E, Box<S>),
    Do(Box<S>, E),
    For(Option<H>, Option<E>, Option<E>, Box<S>),
    ForIn(L, E, Box<S>),
    ForOf(L, E, Box<S>),
    Debugger,
    Fun(F),
    /// A fragment as it stands (only in wild programs).
    Raw(String),
}

pub const UNOPS: &[&str] = &["-", "+", "!", "~", "typeof", "void", "delete"];
pub const BINOPS: &[(&str, u8)] = &[
    ("||", 3), ("&&", 4), ("|", 5), ("^", 6), ("&", 7), ("==", 8), ("!=", 8), ("===", 8), ("!==", 8), ("<", 9), (">", 9), ("<=", 9), (">=", 9),
    ("instanceof", 9), ("in", 9), ("<<", 10), (">>", 10), (">>>", 10), ("+", 11), ("-", 11), ("*", 12), ("%", 12), ("/", 12),
];
const OP_IN: u8 = 14;
const OP_DIV: u8 = 22;
pub const ASSOPS: &[&str] = &["=", "+=", "-=", "*=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "/="];
const ASG_DIV: u8 = 11;
const KINDS: &[&str] = &["var", "let", "const"];
const LITS: &[&str] = &["this", "null", "true", "false"];
const WORDS: &[&str] = &["if", "in", "get", "set", "new", "target", "function", "of", "let", "null", "default", "static", "class", "eval", "typeof"];
const NAMES: &[&str] = &["of", "get", "set", "target", "eval", "arguments", "async", "from"];

/// Those that may be assigned to everywhere.
const FREE_NAMES: &[&str] = &["of", "get", "set", "target", "async", "from"];
/// Names that may not stand everywhere (only in wild programs).
const ODD: u32 = 1 << 20;
const ODD_NAMES: &[&str] = &["eval", "arguments", "let", "static", "yield", "package", "interface", "of", "get", "await", "if", "null", "enum", "this"];
/// Words that mean something in strict code or modules (as a name: plain, then
/// with an escape).
pub const SWORD: u32 = 1 << 21;
pub const STRICT_NAMES: &[&str] = &["implements", "interface", "let", "package", "private", "protected", "public", "static", "yield", "eval", "arguments", "await"];
pub fn strict_word(n: u32) -> Option<&'static str> {
    if n >= SWORD { Some(STRICT_NAMES[(n - SWORD) as usize % STRICT_NAMES.len()]) } else { None }
}
/// Strings that make code strict, and some that only look like it.
pub const USE: u32 = 1 << 22;
/// The spelling, and whether it is a directive at all.
pub fn use_name(n: u32) -> (&'static str, bool) {
    match (n - USE) % 16 {
        0 => ("\"use strict\"", true),
        1 => ("'use strict'", true),
        2 => ("\"use\\x20strict\"", true),
        3 => ("'use strict '", true),
        4 => ("\" use strict\"", true),
        5 => ("'Use strict'", true),
        6 => ("\"use\\u0020strict\"", true),
        7 => ("'use\tstrict'", true),
        8 => ("\"use strict\\\n\"", true),
        9 => ("'\\u{75}se strict'", true),
        10 => ("\"use  strict\"", true),
        11 => ("'use stric'", true),
        12 => ("\"\"", true),
        13 => ("'\"use strict\"'", true),
        14 => ("(\"use strict\")", false),
        _ => ("('use strict')", false),
    }
}
const RAW_E: &[&str] = &[
    "...v901", "[...v902, v903]", "[...v904, ...v905]", "[...v906, ] = v907", "{ v908 = v909 }", "({ v910 = v911 })", "({ get v912() { } } = v913)", "({ v914() { } } = v915)",
    "({ set v916(v917) { }, v918: 1 } = v919)", "(v920) = v921", "((v922)) = v923", "([v924]) = v925", "({ v926: (v927) } = v928)", "({ v929: (v930.a) } = v931)", "[v932 + 1] = v933",
    "[v934()] = v935", "({ v936: v937() } = v938)", "++v939++", "++[v940]", "--{ }", "v941()++", "new v942()++", "v943() = v944", "v945 + v946 = v947", "-v948 = v949", "1 = v950",
    "\"s1\" = v951", "this = v952", "null++", "new.target = v953", "new.target++", "new.v954", "new . target . v955", "new new.target", "function () { } = v956", "[[...v957], v958] = v959",
    "[, ...[, v960]] = v961", "({ v962, } = v963)", "({ if } = v964)", "({ if: v965 } = v966)", "({ eval } = v967)", "({ 1: v968, \"s2\": v969 } = v970)", "({ 1 } = v971)", "({ \"s3\" })",
    "({ get })", "({ set, get })", "({ get: 1, set: 2 })", "({ get get() { }, set set(v972) { } })", "({ get v973(v974) { } })", "({ set v975() { } })", "({ set v976(...v977) { } })",
    "({ *v978() { yield } })", "({ * get() { } })", "({ *get v979() { } })", "({ get *v980() { } })", "(v981, )", "(, v982)", "()", "[v983 v984]", "v985 ? v986", "v987 ? : v988", "v989 .", "v990 . 1",
    "v991 [ ]", "v992 ( , )", "v993(...)", "v994(v995, )", "delete v996", "void", "typeof", "v997 in", "in v998", "v999 instanceof", "yield", "yield v900", "v901 => v902", "(v903) => { }",
    "class { }", "`v904`", "super.v905", "super()", "async function v906() { }", "v907 ** 2", "function* () { yield }", "function (v908, v908) { }", "function (v909, ...) { }", "function (...v910, v911) { }",
    "function ([v912, ...v913], { v914, v915: v916 }) { }", "function ([...v917, v918]) { }", "function (v919 = 1) { }", "function eval() { }", "function (eval) { \"use strict\" }", "function ({ eval }) { \"use strict\" }",
];
const RAW_S: &[&str] = &[
    "try { v801 } ;", "try { } catch { }", "try { } catch (v802, v803) { }", "try { } finally { v804 } finally { v805 }", "try { } finally { v806 } catch (v807) { }", "try { } catch (v808) { v809 } catch (v810) { v811 }",
    "try { } catch ([v812]) { }", "try { } catch ({ v813 }) { }", "try v814 ;", "catch (v815) { }", "finally { }", "switch (v816) { v817 }", "switch (v818) { default: v819 default: v820 }",
    "switch (v821) { case: v822 }", "switch (v823) { case v824 v825 }", "switch (v826) { default v827 }", "switch v828 { }", "switch (v829) { case v830: default: case v831: break v832 }", "case v833:", "default:",
    "else v834", "if v835 ;", "if (v836) else ;", "if () ;", "if (v837) function v838() { }", "while (v839) function v840() { }", "while () ;", "do v841 while (v842) v843", "do while (v844)", "do { } v845",
    "for ( ; ) ;", "for (;;;) ;", "for (v846 in) ;", "for (in v847) ;", "for (var v848, v849 in v850) ;", "for (var v851 = 1, v852 in v853) ;", "for (var v854 = 1 of v855) ;", "for (let v856 = 1 in v857) ;",
    "for (const v858 ; ;) ;", "for (const v859 in v860) ;", "for (let of v861) ;", "for (let in v862) ;", "for (let ; ;) ;", "for (let = 1 ; ;) ;", "for (let . v863 of v864) ;", "for (let [v865] of v866) ;",
    "for (let [v867, ...v868] = v869 ; ;) ;", "for (var { v870 } of v871) ;", "for (var { v872 } ; ;) ;", "for (var [v873] = 1 in v874) ;", "for ([...v875, v876] of v877) ;", "for ([v878] in v879) ;", "for ({ v880 } of v881) ;",
    "for ({ v882: v883() } of v884) ;", "for (v885 + 1 of v886) ;", "for (v887() in v888) ;", "for ((v889) of v890) ;", "for ((v891 in v892) in v893) ;", "for (v894 in v895, v896) ;", "for (v897 of v898, v899) ;",
    "for (var v701 of v702 in v703) ;", "for (var v704 in v705 of v706) ;", "for (new v707 in v708) ;", "for (v709 = 1 in v710) ;", "for (var v711 = (1 in v712) ; ;) ;", "for (var v713 = 1 in v714 ; ;) ;",
    "var [v715] ;", "var { v716 } ;", "var [v717, ...v718] = v719 ;", "var [...v720, v721] = v722 ;", "var { v723, v724: [v725] } = v726 ;", "var { v727: v728.v729 } = v730 ;", "var { get v731() { } } = v732 ;",
    "let [v733] = v734, v735 ;", "let let = 1 ;", "let ;", "let", "const v736 ;", "const { v737 } ;", "var v738 v739 ;", "var v740 = ;", "var , v741 ;", "var if ;", "var v742 = 1 = 2 ;", "let v743 \n = 1 ;",
    "return ;", "return v744 ;", "break ;", "continue ;", "break v745 ;", "continue v746 ;", "v747: v747: ;", "v748: { v748: ; }", "v749: continue v749 ;", "v750: { continue v750 ; }", "v751: while (1) { v752: { continue v752 ; } }",
    "v753: while (1) { v754: { break v754 ; } continue v753 ; }", "v755: { function v756() { break v755 ; } }", "while (1) { function v757() { break ; } }", "v758: function v759() { }", "v760: let v761 ;", "v762: const v763 = 1 ;",
    "if: ;", "eval: ;", "yield: ;", "let: ;", "throw ;", "throw \n v764 ;", "with (v765) v766 ;", "with () ;", "function v767 { }", "function () { }", "function* v768() { yield }", "function v769(v770 v771) { }", "function v772(, ) { }",
    "function v773(v774, ) { }", "function v775(eval) { \"use strict\" }", "function eval() { \"use strict\" }", "function v776() { \"use strict\" ; with (v777) ; }", "function v778() { \"s4\" ; \"use strict\" ; 010 }",
    "import v779 from \"s5\" ;", "import { v780 } from \"s6\" ;", "import \"s7\" ;", "export var v781 ;", "export default v782 ;", "export { v783 } ;", "export * from \"s8\" ;", "class v784 { }", "debugger v785", "v786 v787", "v788 \n ++ v789",
    "v790 \n ( v791 )", "{ v792 : v793 , v794 }", "( { v795 )", "}", ")", "]", ";;;", "\"use strict\" . v796", "\"use strict\" , v797", "\"s9\" \n + 1", "\"use asm\" ;", "v798 \n --> v799", "<!-- v700",
];

/// Spelling and meaning of each kind of marker.
pub fn id(n: u32) -> (String, String) {
    if let Some(w) = strict_word(n) {
        let escaped = (n - SWORD) as usize / STRICT_NAMES.len() % 2 == 1;
        return (if escaped { format!("\\u00{:x}{}", w.as_bytes()[0], &w[1..]) } else { w.to_string() }, w.to_string());
    }
    if n >= ODD {
        let w = ODD_NAMES[(n - ODD) as usize % ODD_NAMES.len()];
        return (w.to_string(), w.to_string());
    }
    match n % 11 {
        7 => (format!("${}", n), format!("${}", n)),
        8 => (format!("_v{}", n), format!("_v{}", n)),
        9 => (format!("é{}ß", n), format!("é{}ß", n)),
        10 => (format!("\\u0076{}", n), format!("v{}", n)),
        _ => (format!("v{}", n), format!("v{}", n)),
    }
}
pub fn num(n: u32) -> (String, f64) {
    let t = match n % 9 {
        5 => format!("0x{:X}", 0xA0000 + n),
        6 => format!("{}.25", 1000 + n),
        7 => format!("{}e2", 1000 + n),
        8 => format!(".5{:05}", n),
        _ => format!("{}", 1_000_000 + n),
    };
    let v = if let Some(h) = t.strip_prefix("0x") { u32::from_str_radix(h, 16).unwrap() as f64 } else { t.parse().unwrap() };
    (t, v)
}
pub fn string(n: u32) -> (String, String) {
    if n >= USE {
        return (use_name(n).0.to_string(), use_name(n).0.to_string());
    }
    match n % 10 {
        4 => (format!("'s{}'", n), format!("s{}", n)),
        5 => (format!("'s{} )]}}'", n), format!("s{} )]}}", n)),
        6 => (format!("\"s{}\\x41\\n\\'\"", n), format!("s{}A\n'", n)),
        7 => (format!("\"s{}\\u{{1F600}}\"", n), format!("s{}\u{1F600}", n)),
        8 => (format!("\"s{}\\\n\"", n), format!("s{}", n)),
        9 => (format!("'s{} ({{[ \"'", n), format!("s{} ({{[ \"", n)),
        _ => (format!("\"s{}\"", n), format!("s{}", n)),
    }
}
pub fn regexp(n: u32) -> (String, String, &'static str) {
    let (p, f) = match n % 5 {
        1 => (format!("r{}[a-z/]*", n), "g"),
        2 => (format!("r{}\\/", n), "gi"),
        3 => (format!("r{}", n), "mgi"),
        4 => (format!("=r{}", n), "yum"),
        _ => (format!("r{}", n), ""),
    };
    (format!("/{}/{}", p, f), p, f)
}

// ------------------------------------------------------------- generator

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub n: u32,
    pub strict: bool,
    pub slashes: bool,
    pub patterns: bool,
    pub sugar: bool,
    /// Breaks the rules now and then.
    pub wild: bool,
    budget: i32,
    depth: u32,
    // Context.
    function: bool,
    iteration: bool,
    switch: bool,
    labels: Vec<(u32, bool)>,
    /// Labels of statements elsewhere.
    spent: Vec<u32>,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, strict: bool, slashes: bool, patterns: bool, sugar: bool, budget: i32) -> Gen<'a> {
        Gen { r, n: 0, strict, slashes, patterns, sugar, wild: false, budget, depth: 0, function: false, iteration: false, switch: false, labels: vec![], spent: vec![] }
    }
    fn fresh(&mut self) -> u32 {
        self.n += 1;
        if self.w(8) {
            return if self.r.pct(50) { ODD + self.r.below(ODD_NAMES.len()) as u32 } else { 1 + self.r.below(self.n as usize) as u32 };
        }
        self.n
    }
    fn w(&mut self, pct: usize) -> bool {
        self.wild && self.r.pct(pct)
    }
    fn spend(&mut self) -> bool {
        self.budget -= 1;
        self.budget > 0 && self.depth < 24
    }

    pub fn program(&mut self) -> Vec<S> {
        let mut v = vec![];
        if self.r.pct(15) {
            v.push(S::Expr(E::Str(self.fresh())));
        }
        while self.budget > 0 && v.len() < 30 {
            v.push(self.stmt(true));
            if self.r.pct(10) {
                break;
            }
        }
        v
    }

    fn body(&mut self, max: usize) -> Vec<S> {
        let n = self.r.below(max + 1);
        self.depth += 1;
        let v = (0..n).map(|_| self.stmt(true)).collect();
        self.depth -= 1;
        v
    }

    fn fun_body(&mut self) -> Vec<S> {
        let f = std::mem::replace(&mut self.function, true);
        let i = std::mem::replace(&mut self.iteration, false);
        let s = std::mem::replace(&mut self.switch, false);
        let l = std::mem::take(&mut self.labels);
        let mut v = vec![];
        if self.r.pct(8) {
            v.push(S::Expr(E::Str(self.fresh())));
        }
        v.extend(self.body(3));
        self.function = f;
        self.iteration = i;
        self.switch = s;
        self.labels = l;
        v
    }

    fn fun(&mut self, id: Option<u32>) -> F {
        F {
            id,
            params: (0..self.r.geometric(1, 4)).map(|_| self.fresh()).collect(),
            rest: if self.sugar && self.r.pct(15) { Some(self.fresh()) } else { None },
            gen: self.sugar && self.r.pct(12),
            body: self.fun_body(),
        }
    }

    fn loop_body(&mut self) -> Box<S> {
        let i = std::mem::replace(&mut self.iteration, true);
        let s = self.sub();
        self.iteration = i;
        s
    }

    fn sub(&mut self) -> Box<S> {
        self.depth += 1;
        let s = if self.r.pct(50) { S::Block(self.body(3)) } else { self.stmt(false) };
        self.depth -= 1;
        Box::new(s)
    }

    fn decls(&mut self, kind: u8) -> Vec<(u32, Option<E>)> {
        (0..1 + self.r.geometric(1, 3))
            .map(|_| {
                let id = self.fresh();
                let bare = self.w(20);
                (id, if !bare && (kind == 2 || self.r.pct(60)) { Some(self.expr(1)) } else { None })
            })
            .collect()
    }

    fn stmt(&mut self, decl: bool) -> S {
        if !self.spend() {
            return match self.r.below(4) {
                0 => S::Empty,
                1 => S::Debugger,
                _ => S::Expr(E::Id(self.fresh())),
            };
        }
        if self.w(6) {
            return S::Raw(self.r.pick(RAW_S).to_string());
        }
        if self.w(4) {
            return self.maze(0);
        }
        let decl = decl || self.w(30);
        loop {
            return match self.r.below(40) {
                0 => S::Empty,
                1..=2 => S::Block(self.body(4)),
                3..=6 => {
                    let k = if decl { self.r.below(3) as u8 } else { 0 };
                    S::Decl(k, self.decls(k))
                }
                7..=16 => S::Expr(self.expr(0)),
                17..=18 => {
                    let e = self.expr(0);
                    let c = self.sub();
                    let alt = if self.r.pct(50) { Some(self.sub()) } else { None };
                    S::If(e, c, alt)
                }
                19 => {
                    let iter = self.r.pct(60);
                    let mut ls = vec![];
                    for _ in 0..if self.r.pct(30) { self.r.range(2, 4) } else { 1 } {
                        let l = match self.spent.len() {
                            n if n > 0 && self.r.pct(40) => self.spent[self.r.below(n)],
                            _ => self.fresh(),
                        };
                        if !self.labels.iter().any(|x| x.0 == l) {
                            self.labels.push((l, iter));
                            self.spent.push(l);
                            ls.push(l);
                        }
                    }
                    let body = if iter {
                        let e = self.expr(0);
                        match self.r.below(3) {
                            0 => S::While(e, self.loop_body()),
                            1 => {
                                let b = self.loop_body();
                                S::Do(b, e)
                            }
                            _ => S::For(None, Some(e), None, self.loop_body()),
                        }
                    } else if self.r.pct(70) {
                        S::Block(self.body(3))
                    } else {
                        let s = self.stmt(false);
                        // A label before a loop makes it a loop label; keep to the declared kind.
                        match s {
                            S::While(..) | S::Do(..) | S::For(..) | S::ForIn(..) | S::ForOf(..) | S::Label(..) => S::Block(vec![s]),
                            s => s,
                        }
                    };
                    self.labels.truncate(self.labels.len() - ls.len());
                    ls.into_iter().rev().fold(body, |b, l| S::Label(l, Box::new(b)))
                }
                20 | 21 if self.w(40) => S::Break(if self.r.pct(70) { Some(1 + self.r.below(self.n as usize + 1) as u32) } else { None }),
                22 if self.w(50) => S::Cont(if self.r.pct(70) { Some(1 + self.r.below(self.n as usize + 1) as u32) } else { None }),
                20 | 21 => {
                    let n = self.labels.len();
                    if (self.iteration || self.switch) && (n == 0 || self.r.pct(60)) {
                        S::Break(None)
                    } else if n > 0 {
                        S::Break(Some(self.labels[self.r.below(n)].0))
                    } else {
                        continue;
                    }
                }
                22 => {
                    let ls: Vec<u32> = self.labels.iter().filter(|l| l.1).map(|l| l.0).collect();
                    if self.iteration && (ls.is_empty() || self.r.pct(50)) {
                        S::Cont(None)
                    } else if self.iteration && !ls.is_empty() {
                        S::Cont(Some(*self.r.pick(&ls)))
                    } else {
                        continue;
                    }
                }
                23 => {
                    if self.strict && !self.wild {
                        continue;
                    }
                    let e = self.expr(0);
                    S::With(e, self.sub())
                }
                24..=25 => {
                    let e = self.expr(0);
                    let s = std::mem::replace(&mut self.switch, true);
                    let n = self.r.below(4);
                    let d = self.r.below(n + 2);
                    let mut cases = vec![];
                    for i in 0..n {
                        let t = if i == d || self.w(10) { None } else { Some(self.expr(0)) };
                        let b = self.body(2);
                        cases.push((t, b));
                    }
                    self.switch = s;
                    S::Switch(e, cases)
                }
                26 => {
                    if !self.function && !self.w(30) {
                        continue;
                    }
                    S::Ret(if self.r.pct(70) { Some(self.expr(0)) } else { None })
                }
                27 => S::Throw(self.expr(0)),
                28..=29 => {
                    let b = self.body(2);
                    let k = self.r.below(3);
                    let c = if k != 1 { Some((self.fresh(), self.body(2))) } else { None };
                    let f = if k != 0 && !self.w(20) { Some(self.body(2)) } else { None };
                    S::Try(b, c, f)
                }
                30 => {
                    let e = self.expr(0);
                    S::While(e, self.loop_body())
                }
                31 => {
                    let b = self.loop_body();
                    S::Do(b, self.expr(0))
                }
                32..=33 => {
                    let h = match self.r.below(4) {
                        0 => None,
                        1 => Some(H::E(self.expr(0))),
                        _ => {
                            let k = self.r.below(3) as u8;
                            Some(H::Decl(k, self.decls(k)))
                        }
                    };
                    let t = if self.r.pct(70) { Some(self.expr(0)) } else { None };
                    let u = if self.r.pct(70) { Some(self.expr(0)) } else { None };
                    S::For(h, t, u, self.loop_body())
                }
                34..=35 => {
                    let l = match self.r.below(6) {
                        0..=2 => L::Decl(self.r.below(3) as u8, self.fresh()),
                        3 if !self.strict || self.wild => L::VarInit(self.fresh(), self.expr(1)),
                        _ => L::E(self.target()),
                    };
                    let e = self.expr(0);
                    S::ForIn(l, e, self.loop_body())
                }
                36 => {
                    let l = if self.w(20) { L::VarInit(self.fresh(), self.expr(1)) } else if self.r.pct(60) { L::Decl(self.r.below(3) as u8, self.fresh()) } else { L::E(self.target()) };
                    let e = self.expr(1);
                    S::ForOf(l, e, self.loop_body())
                }
                37 => S::Debugger,
                _ => {
                    if !decl {
                        continue;
                    }
                    let i = self.fresh();
                    S::Fun(self.fun(Some(i)))
                }
            };
        }
    }

    /// Labels, loops and functions in each other, with jumps to any of them or none.
    fn maze(&mut self, depth: u32) -> S {
        let label = |g: &mut Self| 90 + g.r.below(6) as u32;
        if depth > 6 || self.r.pct(20) {
            let l = if self.r.pct(80) { Some(label(self)) } else { None };
            return if self.r.pct(50) { S::Break(l) } else { S::Cont(l) };
        }
        match self.r.below(10) {
            0..=3 => S::Label(label(self), Box::new(self.maze(depth + 1))),
            4..=5 => S::While(E::Id(self.fresh()), Box::new(self.maze(depth + 1))),
            6 => S::For(None, None, None, Box::new(self.maze(depth + 1))),
            7 => S::Switch(E::Id(self.fresh()), vec![(None, vec![self.maze(depth + 1)])]),
            8 if self.r.pct(30) => S::Expr(E::Fun(Box::new(F { id: None, params: vec![], rest: None, gen: false, body: vec![self.maze(depth + 1)] }))),
            _ => S::Block((0..1 + self.r.below(2)).map(|_| self.maze(depth + 1)).collect()),
        }
    }

    /// The same, with no label inside another of its name in one function.
    pub fn tangle(&mut self, depth: u32, open: &mut Vec<u32>) -> S {
        let label = |g: &mut Self| 90 + g.r.below(6) as u32;
        if depth > 7 || depth > 0 && self.r.pct(15) {
            let l = match self.r.below(10) {
                0..=5 if !open.is_empty() => Some(*self.r.pick(open)),
                0..=7 => Some(label(self)),
                _ => None,
            };
            return match self.r.below(7) {
                0 => S::Ret(None),
                1..=3 => S::Break(l),
                _ => S::Cont(l),
            };
        }
        match self.r.below(14) {
            0..=4 => {
                let l = label(self);
                if open.contains(&l) {
                    return self.tangle(depth + 1, open);
                }
                open.push(l);
                let b = self.tangle(depth + 1, open);
                open.pop();
                S::Label(l, Box::new(b))
            }
            5..=7 => {
                let e = E::Id(self.fresh());
                let b = Box::new(self.tangle(depth + 1, open));
                match self.r.below(5) {
                    0 => S::Do(b, e),
                    1 => S::For(None, None, None, b),
                    2 => S::ForIn(L::Decl(0, self.fresh()), e, b),
                    3 => S::ForOf(L::E(E::Id(self.fresh())), e, b),
                    _ => S::While(e, b),
                }
            }
            8 => {
                let e = E::Id(self.fresh());
                let mut cs = vec![];
                for i in 0..1 + self.r.below(2) {
                    let t = if i == 0 { None } else { Some(E::Id(self.fresh())) };
                    cs.push((t, vec![self.tangle(depth + 1, open)]));
                }
                S::Switch(e, cs)
            }
            9 => {
                let mut inner = vec![];
                let n = 1 + self.r.below(2);
                let mut body: Vec<S> = (0..n).map(|_| self.tangle(depth + 1, &mut inner)).collect();
                if self.r.pct(25) {
                    body.insert(0, S::Expr(E::Str(USE + self.r.below(3) as u32)));
                }
                let f = F { id: None, params: vec![], rest: None, gen: false, body };
                let e = match self.r.below(4) {
                    0 => E::Obj(vec![P::Get(K::Id(9), f.body)]),
                    1 => E::Obj(vec![P::Method(K::Id(9), f)]),
                    _ => E::Fun(Box::new(f)),
                };
                if self.r.pct(30) { S::While(e, Box::new(self.tangle(depth + 1, open))) } else { S::Expr(e) }
            }
            10 => S::Try(vec![self.tangle(depth + 1, open)], Some((self.fresh(), vec![self.tangle(depth + 1, open)])), None),
            11 => S::If(E::Id(self.fresh()), Box::new(self.tangle(depth + 1, open)), Some(Box::new(self.tangle(depth + 1, open)))),
            _ => S::Block((0..1 + self.r.below(3)).map(|_| self.tangle(depth + 1, open)).collect()),
        }
    }

    fn key(&mut self) -> K {
        match self.r.below(10) {
            0..=4 => K::Id(self.fresh()),
            5..=6 => K::Word(self.r.pick(WORDS).to_string()),
            7..=8 => K::Str(self.fresh()),
            _ => K::Num(self.fresh()),
        }
    }

    fn args(&mut self) -> Vec<A> {
        (0..self.r.geometric(1, 4)).map(|_| self.arg()).collect()
    }
    fn arg(&mut self) -> A {
        let e = self.expr(1);
        if self.sugar && self.r.pct(12) { A::Spread(e) } else { A::E(e) }
    }

    fn target(&mut self) -> E {
        if self.w(20) {
            return match self.r.below(4) {
                0 => E::Raw(self.r.pick(RAW_E).to_string()),
                1 => self.pattern(0),
                _ => self.expr(0),
            };
        }
        match self.r.below(5) {
            0 if self.r.pct(15) => E::Name(self.r.pick(FREE_NAMES).to_string()),
            0..=2 => E::Id(self.fresh()),
            3 => {
                let o = self.expr(1);
                E::Dot(Box::new(o), self.dot_key())
            }
            _ => {
                let o = self.expr(1);
                E::Brk(Box::new(o), Box::new(self.expr(0)))
            }
        }
    }
    fn dot_key(&mut self) -> K {
        if self.r.pct(75) { K::Id(self.fresh()) } else { K::Word(self.r.pick(WORDS).to_string()) }
    }

    fn pattern(&mut self, depth: u32) -> E {
        if depth > 2 || self.r.pct(40) {
            return self.target();
        }
        if self.r.pct(50) {
            let n = self.r.below(4);
            let mut v: Vec<Option<A>> = (0..n).map(|_| if self.r.pct(15) { None } else { Some(A::E(self.pattern(depth + 1))) }).collect();
            if self.r.pct(30) {
                v.push(Some(A::Spread(self.pattern(depth + 1))));
            }
            if self.w(25) {
                let at = self.r.below(v.len() + 1);
                let e = self.pattern(depth + 1);
                v.insert(at, Some(A::Spread(e)));
            }
            E::Arr(v)
        } else {
            let n = self.r.below(4);
            E::Obj((0..n).map(|_| if self.w(15) { self.prop() } else if self.r.pct(40) { P::Short(self.fresh()) } else { P::Init(self.key(), self.pattern(depth + 1)) }).collect())
        }
    }

    /// level 0 allows a comma expression, 1 does not (the emitter adds the
    /// parentheses a position needs; this only steers the mix).
    fn expr(&mut self, level: u8) -> E {
        if !self.spend() {
            return self.atom();
        }
        if self.w(4) {
            return E::Raw(self.r.pick(RAW_E).to_string());
        }
        if self.depth < 6 && self.r.pct(2) {
            return self.long(level);
        }
        self.depth += 1;
        let e = match self.r.below(40) {
            0 if level == 0 => E::Seq((0..self.r.range(2, 4)).map(|_| self.expr(1)).collect()),
            1..=3 => E::Arr((0..self.r.geometric(2, 5)).map(|_| if self.r.pct(10) { None } else { Some(self.arg()) }).collect()),
            4..=6 => {
                let n = self.r.geometric(2, 5);
                E::Obj((0..n).map(|_| self.prop()).collect())
            }
            7..=8 => {
                let i = if self.r.pct(50) { Some(self.fresh()) } else { None };
                E::Fun(Box::new(self.fun(i)))
            }
            9..=11 => E::Un(self.r.below(UNOPS.len()) as u8, Box::new(self.expr(1))),
            12..=13 => E::Upd { prefix: self.r.pct(50), inc: self.r.pct(50), arg: Box::new(self.target()) },
            14..=20 => {
                let mut op = self.r.below(BINOPS.len()) as u8;
                if op == OP_DIV && !self.slashes {
                    op = 0;
                }
                let a = self.expr(1);
                E::Bin(op, Box::new(a), Box::new(self.expr(1)))
            }
            21..=23 => {
                if self.patterns && self.r.pct(25) {
                    let t = self.pattern(0);
                    E::Asg(0, Box::new(t), Box::new(self.expr(1)))
                } else {
                    let mut op = if self.r.pct(50) { 0 } else { self.r.below(ASSOPS.len()) as u8 };
                    if op == ASG_DIV && !self.slashes {
                        op = 1;
                    }
                    let t = self.target();
                    E::Asg(op, Box::new(t), Box::new(self.expr(1)))
                }
            }
            24..=25 => {
                let a = self.expr(1);
                let b = self.expr(1);
                E::Cond(Box::new(a), Box::new(b), Box::new(self.expr(1)))
            }
            26..=28 => {
                let c = self.expr(1);
                E::Call(Box::new(c), self.args())
            }
            29..=30 => {
                let c = self.expr(1);
                E::New(Box::new(c), if self.r.pct(70) { Some(self.args()) } else { None })
            }
            31..=32 => {
                let o = self.expr(1);
                E::Dot(Box::new(o), self.dot_key())
            }
            33 => {
                let o = self.expr(1);
                E::Brk(Box::new(o), Box::new(self.expr(0)))
            }
            34 if self.sugar && (self.function || self.wild) => E::Target,
            _ => self.atom(),
        };
        self.depth -= 1;
        e
    }

    /// Long lists, and long runs of operators without parentheses.
    fn long(&mut self, level: u8) -> E {
        let n = 2 + self.r.geometric(12, 150);
        match self.r.below(12) {
            0 => E::Arr((0..n).map(|_| Some(A::E(self.atom()))).collect()),
            1 => E::Call(Box::new(self.atom()), (0..n).map(|_| A::E(self.atom())).collect()),
            2 => E::Obj((0..n).map(|_| P::Init(self.key(), self.atom())).collect()),
            3 if level == 0 => E::Seq((0..n).map(|_| self.atom()).collect()),
            4 => {
                let f = F { id: None, params: (0..n).map(|_| self.fresh()).collect(), rest: None, gen: false, body: (0..n).map(|_| S::Expr(E::Id(self.fresh()))).collect() };
                E::Fun(Box::new(f))
            }
            5 => {
                let mut e = self.atom();
                for _ in 0..n.min(60) {
                    e = match self.r.below(5) {
                        0..=1 => E::Dot(Box::new(e), self.dot_key()),
                        2 => E::Brk(Box::new(e), Box::new(self.atom())),
                        3 => E::New(Box::new(e), Some(vec![])),
                        _ => E::Call(Box::new(e), vec![A::E(self.atom())]),
                    };
                }
                e
            }
            6 => {
                let mut e = self.atom();
                for _ in 0..n.min(40) {
                    e = match self.r.below(4) {
                        0 => E::Asg(0, Box::new(E::Id(self.fresh())), Box::new(e)),
                        1 => E::Cond(Box::new(self.atom()), Box::new(self.atom()), Box::new(e)),
                        2 => E::Un(self.r.below(UNOPS.len()) as u8, Box::new(e)),
                        _ => E::Cond(Box::new(self.atom()), Box::new(e), Box::new(self.atom())),
                    };
                }
                e
            }
            _ => {
                let mut items = vec![self.atom()];
                let mut ops: Vec<u8> = vec![];
                for _ in 0..n.min(60) {
                    let op = self.r.below(if self.slashes { BINOPS.len() } else { OP_DIV as usize }) as u8;
                    while ops.last().map_or(false, |l| BINOPS[*l as usize].1 >= BINOPS[op as usize].1) {
                        fold(&mut items, &mut ops);
                    }
                    ops.push(op);
                    let a = self.atom();
                    items.push(if self.r.pct(20) { E::Un(self.r.below(UNOPS.len()) as u8, Box::new(a)) } else { a });
                }
                while !ops.is_empty() {
                    fold(&mut items, &mut ops);
                }
                items.pop().unwrap()
            }
        }
    }

    fn prop(&mut self) -> P {
        match self.r.below(10) {
            0..=4 => P::Init(self.key(), self.expr(1)),
            5 => P::Get(self.key(), self.fun_body()),
            6 => P::Set(self.key(), self.fresh(), self.fun_body()),
            7 if self.sugar => P::Method(self.key(), self.fun(None)),
            8 if self.sugar => P::Short(self.fresh()),
            _ => P::Init(self.key(), self.atom()),
        }
    }

    fn atom(&mut self) -> E {
        match self.r.below(20) {
            0..=8 => E::Id(self.fresh()),
            9..=11 => E::Num(self.fresh()),
            12..=14 => E::Str(self.fresh()),
            15 if self.slashes => E::Re(self.fresh()),
            16..=17 => E::Lit(self.r.below(4) as u8),
            18 => E::Name(self.r.pick(NAMES).to_string()),
            _ => E::Id(self.fresh()),
        }
    }
}

fn fold(items: &mut Vec<E>, ops: &mut Vec<u8>) {
    let b = items.pop().unwrap();
    let a = items.pop().unwrap();
    items.push(E::Bin(ops.pop().unwrap(), Box::new(a), Box::new(b)));
}

// --------------------------------------------------------------- validity

/// Jumps, labels and returns are placed legally (they may not be after shrinking).
pub fn legal(prog: &[S], strict: bool) -> bool {
    let mut c = Ctx { function: false, iteration: false, switch: false, labels: vec![], strict };
    prog.iter().all(|s| c.stmt(s, true))
}
struct Ctx {
    function: bool,
    iteration: bool,
    switch: bool,
    labels: Vec<(u32, bool)>,
    strict: bool,
}
impl Ctx {
    fn all(&mut self, v: &[S]) -> bool {
        v.iter().all(|s| self.stmt(s, true))
    }
    fn fun(&mut self, body: &[S]) -> bool {
        let mut c = Ctx { function: true, iteration: false, switch: false, labels: vec![], strict: self.strict };
        c.all(body)
    }
    fn looped(&mut self, s: &S) -> bool {
        let i = std::mem::replace(&mut self.iteration, true);
        let r = self.stmt(s, false);
        self.iteration = i;
        r
    }
    fn es(&mut self, v: &[&E]) -> bool {
        v.iter().all(|e| self.expr(e))
    }
    fn decls(&mut self, k: u8, ds: &[(u32, Option<E>)]) -> bool {
        !ds.is_empty() && ds.iter().all(|d| match &d.1 {
            Some(e) => self.expr(e),
            None => k != 2,
        })
    }
    fn stmt(&mut self, s: &S, decl: bool) -> bool {
        match s {
            S::Raw(_) => false,
            S::Empty | S::Debugger => true,
            S::Block(v) => self.all(v),
            S::Decl(k, ds) => (decl || *k == 0) && self.decls(*k, ds),
            S::Expr(e) | S::Throw(e) => self.expr(e),
            S::If(e, a, b) => self.expr(e) && self.stmt(a, false) && b.as_ref().map_or(true, |b| self.stmt(b, false)),
            S::Label(l, b) => {
                let mut inner = b;
                while let S::Label(_, b) = &**inner {
                    inner = b;
                }
                let iter = matches!(**inner, S::While(..) | S::Do(..) | S::For(..) | S::ForIn(..) | S::ForOf(..));
                if self.labels.iter().any(|x| x.0 == *l) {
                    return false;
                }
                self.labels.push((*l, iter));
                let r = self.stmt(b, false);
                self.labels.pop();
                r
            }
            S::Break(None) => self.iteration || self.switch,
            S::Break(Some(l)) => self.labels.iter().any(|x| x.0 == *l),
            S::Cont(None) => self.iteration,
            S::Cont(Some(l)) => self.labels.iter().any(|x| x.0 == *l && x.1),
            S::With(e, b) => !self.strict && self.expr(e) && self.stmt(b, false),
            S::Switch(e, cs) => {
                let s = std::mem::replace(&mut self.switch, true);
                let r = cs.iter().filter(|c| c.0.is_none()).count() <= 1
                    && cs.iter().all(|c| c.0.as_ref().map_or(true, |t| self.expr(t)) && self.all(&c.1));
                self.switch = s;
                r && self.expr(e)
            }
            S::Ret(e) => self.function && e.as_ref().map_or(true, |e| self.expr(e)),
            S::Try(b, c, f) => {
                (c.is_some() || f.is_some()) && self.all(b) && c.as_ref().map_or(true, |c| self.all(&c.1)) && f.as_ref().map_or(true, |f| self.all(f))
            }
            S::While(e, b) | S::Do(b, e) => self.expr(e) && self.looped(b),
            S::For(h, t, u, b) => {
                h.as_ref().map_or(true, |h| match h {
                    H::Decl(k, d) => self.decls(*k, d),
                    H::E(e) => self.expr(e),
                }) && t.as_ref().map_or(true, |e| self.expr(e))
                    && u.as_ref().map_or(true, |e| self.expr(e))
                    && self.looped(b)
            }
            S::ForIn(l, e, b) | S::ForOf(l, e, b) => {
                (match l {
                    L::Decl(..) => true,
                    L::VarInit(_, i) => !self.strict && matches!(s, S::ForIn(..)) && self.expr(i),
                    L::E(t) => is_target(t) && self.expr(t),
                }) && self.expr(e)
                    && self.looped(b)
            }
            S::Fun(f) => decl && f.id.is_some() && self.fun(&f.body),
        }
    }
    fn arg(&mut self, a: &A) -> bool {
        match a {
            A::E(e) | A::Spread(e) => self.expr(e),
        }
    }
    fn expr(&mut self, e: &E) -> bool {
        match e {
            E::Id(_) | E::Name(_) | E::Num(_) | E::Str(_) | E::Re(_) | E::Lit(_) => true,
            E::Raw(_) => false,
            E::Target => self.function,
            E::Arr(v) => v.iter().flatten().all(|a| self.arg(a)),
            E::Obj(v) => v.iter().all(|p| match p {
                P::Init(_, e) => self.expr(e),
                P::Get(_, b) | P::Set(_, _, b) => self.fun(b),
                P::Method(_, f) => self.fun(&f.body),
                P::Short(_) => true,
            }),
            E::Fun(f) => self.fun(&f.body),
            E::Seq(v) => v.len() >= 2 && v.iter().all(|e| self.expr(e)),
            E::Un(_, a) | E::Par(a) => self.expr(a),
            E::Upd { arg, .. } => is_target(arg) && self.expr(arg),
            E::Bin(_, a, b) | E::Brk(a, b) => self.es(&[a, b]),
            E::Asg(op, t, v) => (is_target(t) || (*op == 0 && is_pattern(t))) && self.es(&[t, v]),
            E::Cond(a, b, c) => self.es(&[a, b, c]),
            E::Call(c, v) => self.expr(c) && v.iter().all(|a| self.arg(a)),
            E::New(c, v) => self.expr(c) && v.iter().flatten().all(|a| self.arg(a)),
            E::Dot(o, k) => matches!(k, K::Id(_) | K::Word(_)) && self.expr(o),
        }
    }
}
fn is_target(e: &E) -> bool {
    matches!(e, E::Id(_) | E::Dot(..) | E::Brk(..))
}
fn is_pattern(e: &E) -> bool {
    match e {
        E::Arr(v) => v.iter().enumerate().all(|(i, a)| match a {
            None => true,
            Some(A::E(e)) => is_pattern(e),
            Some(A::Spread(e)) => i + 1 == v.len() && is_pattern(e),
        }),
        E::Obj(v) => v.iter().all(|p| match p {
            P::Init(_, e) => is_pattern(e),
            P::Short(_) => true,
            _ => false,
        }),
        e => is_target(e),
    }
}

// ------------------------------------------------------------------- text

#[derive(Clone, Debug, PartialEq)]
pub struct Piece {
    pub text: String,
    /// A line terminator may not come before this token.
    pub nonl: bool,
    /// A semicolon: 1 after an expression, 2 after do-while, 3 in a for header,
    /// 4 an empty statement, 5 after a statement that cannot go on, 6 after a
    /// bare return, break or continue.
    pub semi: u8,
    /// Left out, and what stands in its place.
    pub gone: Option<u8>,
    /// What stands before it.
    pub brk: Option<u8>,
}
impl Piece {
    pub fn new(text: &str) -> Piece {
        Piece { text: text.to_string(), nonl: false, semi: 0, gone: None, brk: None }
    }
}
/// What may stand where a semicolon was: on one line, then with a line break.
/// Then a
/// semicolon; the last two are left to the style.
pub const GAPS: &[&str] = &[" ", "\t/* c ; */ ", "\n", "\r\n", "\r", "\u{2028}", "\u{2029}", "/* c\n; */", "// c ;\n", " <!-- c ;\n", "\n--> c ;\n", " /* c\u{2029}*/ /**/", "/* c */\n", " ; ", "", ""];
pub const WRITTEN: u8 = 13;
pub const BROKEN: u8 = 14;
pub const ANY: u8 = 15;
/// Does it break the line?
pub fn breaks(gap: u8) -> bool {
    gap >= 2
}

pub struct Emit {
    pub out: Vec<Piece>,
    nonl: bool,
    /// Redundant parentheses, decided by a hash of the position.
    parens: Option<Rng>,
}

fn level(e: &E) -> u8 {
    match e {
        E::Seq(_) => 0,
        E::Asg(..) => 1,
        E::Cond(..) => 2,
        E::Bin(op, ..) => BINOPS[*op as usize % BINOPS.len()].1,
        E::Un(..) => 13,
        E::Upd { prefix: true, .. } => 13,
        E::Upd { .. } => 14,
        E::Call(..) => 15,
        E::New(_, None) => 16,
        E::New(_, Some(_)) => 17,
        E::Dot(o, _) | E::Brk(o, _) => if object_level(o) == 15 { 15 } else { 17 },
        _ => 18,
    }
}
/// The level of a member expression's object as it will be written.
fn object_level(o: &E) -> u8 {
    match (level(o), o) {
        (_, E::Num(_)) => 18,
        (15, _) => 15,
        (17, _) => 17,
        _ => 18,
    }
}
fn has_in(e: &E) -> bool {
    match e {
        E::Bin(op, a, b) => *op == OP_IN || has_in(a) || has_in(b),
        E::Seq(v) => v.iter().any(has_in),
        E::Asg(_, a, b) => has_in(a) || has_in(b),
        E::Cond(a, b, c) => has_in(a) || has_in(b) || has_in(c),
        E::Un(_, a) | E::Upd { arg: a, .. } => has_in(a),
        E::Call(c, _) | E::New(c, _) => has_in(c),
        E::Dot(o, _) | E::Brk(o, _) => has_in(o),
        _ => false,
    }
}
/// Would an `else` after this statement attach to something inside it?
pub fn open_if(s: &S) -> bool {
    match s {
        S::If(_, _, None) => true,
        S::If(_, _, Some(b)) => open_if(b),
        S::Label(_, b) | S::With(_, b) | S::While(_, b) | S::For(_, _, _, b) | S::ForIn(_, _, b) | S::ForOf(_, _, b) => open_if(b),
        _ => false,
    }
}

impl Emit {
    pub fn new(parens: Option<Rng>) -> Emit {
        Emit { out: vec![], nonl: false, parens }
    }
    fn t(&mut self, s: &str) {
        let nonl = std::mem::replace(&mut self.nonl, false);
        self.out.push(Piece { nonl, ..Piece::new(s) });
    }
    fn semi(&mut self, kind: u8) {
        self.t(";");
        self.out.last_mut().unwrap().semi = kind;
    }
    fn id(&mut self, n: u32) {
        self.t(&id(n).0);
    }
    pub fn program(&mut self, v: &[S]) {
        for s in v {
            self.stmt(s);
        }
    }
    fn block(&mut self, v: &[S]) {
        self.t("{");
        self.program(v);
        self.t("}");
    }
    fn fun(&mut self, f: &F) {
        self.t("(");
        for (i, p) in f.params.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            self.id(*p);
        }
        if let Some(r) = f.rest {
            if !f.params.is_empty() {
                self.t(",");
            }
            self.t("...");
            self.id(r);
        }
        self.t(")");
        self.block(&f.body);
    }
    fn decls(&mut self, k: u8, ds: &[(u32, Option<E>)], no_in: bool) {
        self.t(KINDS[k as usize % 3]);
        for (i, (n, e)) in ds.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            self.id(*n);
            if let Some(e) = e {
                self.t("=");
                self.expr_in(e, 1, no_in);
            }
        }
    }
    fn expr_in(&mut self, e: &E, min: u8, no_in: bool) {
        if no_in && has_in(e) {
            self.t("(");
            self.expr(e, 0);
            self.t(")");
        } else {
            self.expr(e, min);
        }
    }
    fn stmt_expr(&mut self, e: &E) {
        let at = self.out.len();
        self.expr(e, 0);
        let first = self.out[at].text.clone();
        if first == "{" || first == "function" || (first.starts_with(|c| c == '"' || c == '\'') && self.out.len() > at + 1) {
            let nonl = std::mem::replace(&mut self.out[at].nonl, false);
            self.out.insert(at, Piece { nonl, ..Piece::new("(") });
            self.t(")");
        }
    }
    fn head(&mut self, e: &E) {
        self.t("(");
        self.expr(e, 0);
        self.t(")");
    }
    fn left(&mut self, l: &L) {
        match l {
            L::Decl(k, n) => {
                self.t(KINDS[*k as usize % 3]);
                self.id(*n);
            }
            L::VarInit(n, e) => {
                self.t("var");
                self.id(*n);
                self.t("=");
                self.expr_in(e, 1, true);
            }
            L::E(e) => {
                if has_in(e) || matches!(e, E::Name(_)) {
                    // The object holds an `in`; write it bracketed.
                    match e {
                        E::Dot(o, k) => {
                            self.t("(");
                            self.expr(o, 0);
                            self.t(")");
                            self.t(".");
                            self.key(k);
                        }
                        E::Brk(o, i) => {
                            self.t("(");
                            self.expr(o, 0);
                            self.t(")");
                            self.t("[");
                            self.expr(i, 0);
                            self.t("]");
                        }
                        e => self.expr(e, 15),
                    }
                } else {
                    self.expr(e, 15);
                }
            }
        }
    }
    fn stmt(&mut self, s: &S) {
        match s {
            S::Raw(s) => self.t(s),
            S::Empty => self.semi(4),
            S::Block(v) => self.block(v),
            S::Decl(k, ds) => {
                self.decls(*k, ds, false);
                self.semi(if matches!(ds.last(), Some((_, None))) { 5 } else { 1 });
            }
            S::Expr(e) => {
                self.stmt_expr(e);
                self.semi(1);
            }
            S::If(e, a, b) => {
                self.t("if");
                self.head(e);
                if b.is_some() && open_if(a) {
                    self.t("{");
                    self.stmt(a);
                    self.t("}");
                } else {
                    self.stmt(a);
                }
                if let Some(b) = b {
                    self.t("else");
                    self.stmt(b);
                }
            }
            S::Label(l, b) => {
                self.id(*l);
                self.t(":");
                self.stmt(b);
            }
            S::Break(l) | S::Cont(l) => {
                self.t(if matches!(s, S::Break(_)) { "break" } else { "continue" });
                if let Some(l) = l {
                    self.nonl = true;
                    self.id(*l);
                }
                self.semi(if l.is_some() { 5 } else { 6 });
            }
            S::With(e, b) => {
                self.t("with");
                self.head(e);
                self.stmt(b);
            }
            S::Switch(e, cs) => {
                self.t("switch");
                self.head(e);
                self.t("{");
                for (t, b) in cs {
                    match t {
                        Some(t) => {
                            self.t("case");
                            self.expr(t, 0);
                        }
                        None => self.t("default"),
                    }
                    self.t(":");
                    self.program(b);
                }
                self.t("}");
            }
            S::Ret(e) => {
                self.t("return");
                if let Some(e) = e {
                    self.nonl = true;
                    self.expr(e, 0);
                }
                self.semi(if e.is_some() { 1 } else { 6 });
            }
            S::Throw(e) => {
                self.t("throw");
                self.nonl = true;
                self.expr(e, 0);
                self.semi(1);
            }
            S::Try(b, c, f) => {
                self.t("try");
                self.block(b);
                if let Some((p, c)) = c {
                    self.t("catch");
                    self.t("(");
                    self.id(*p);
                    self.t(")");
                    self.block(c);
                }
                if let Some(f) = f {
                    self.t("finally");
                    self.block(f);
                }
            }
            S::While(e, b) => {
                self.t("while");
                self.head(e);
                self.stmt(b);
            }
            S::Do(b, e) => {
                self.t("do");
                self.stmt(b);
                self.t("while");
                self.head(e);
                self.semi(2);
            }
            S::For(h, t, u, b) => {
                self.t("for");
                self.t("(");
                match h {
                    None => {}
                    Some(H::Decl(k, d)) => self.decls(*k, d, true),
                    Some(H::E(e)) => self.expr_in(e, 0, true),
                }
                self.semi(3);
                if let Some(t) = t {
                    self.expr(t, 0);
                }
                self.semi(3);
                if let Some(u) = u {
                    self.expr(u, 0);
                }
                self.t(")");
                self.stmt(b);
            }
            S::ForIn(l, e, b) => {
                self.t("for");
                self.t("(");
                self.left(l);
                self.t("in");
                self.expr(e, 0);
                self.t(")");
                self.stmt(b);
            }
            S::ForOf(l, e, b) => {
                self.t("for");
                self.t("(");
                self.left(l);
                self.t("of");
                self.expr(e, 1);
                self.t(")");
                self.stmt(b);
            }
            S::Debugger => {
                self.t("debugger");
                self.semi(5);
            }
            S::Fun(f) => {
                self.t("function");
                if f.gen {
                    self.t("*");
                }
                self.id(f.id.unwrap_or(0));
                self.fun(f);
            }
        }
    }
    fn key(&mut self, k: &K) {
        match k {
            K::Id(n) => self.id(*n),
            K::Word(w) => self.t(w),
            K::Str(n) => self.t(&string(*n).0),
            K::Num(n) => self.t(&num(*n).0),
        }
    }
    fn args(&mut self, v: &[A]) {
        self.t("(");
        for (i, a) in v.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            self.arg(a);
        }
        self.t(")");
    }
    fn arg(&mut self, a: &A) {
        match a {
            A::E(e) => self.expr(e, 1),
            A::Spread(e) => {
                self.t("...");
                self.expr(e, 1);
            }
        }
    }
    fn expr(&mut self, e: &E, min: u8) {
        // A string alone may be a directive; parentheses would hide that.
        let extra = !matches!(e, E::Str(_)) && self.parens.as_mut().map_or(false, |r| r.pct(6));
        if level(e) < min || extra {
            self.t("(");
            self.bare(e);
            self.t(")");
        } else {
            self.bare(e);
        }
    }
    /// An expression in assignment-target position: never parenthesised.
    fn pattern(&mut self, e: &E) {
        match e {
            E::Arr(v) => {
                self.t("[");
                let n = v.len();
                for (i, a) in v.iter().enumerate() {
                    match a {
                        Some(A::E(e)) => self.pattern(e),
                        Some(A::Spread(e)) => {
                            self.t("...");
                            self.pattern(e);
                        }
                        None => {}
                    }
                    if i + 1 < n || a.is_none() {
                        self.t(",");
                    }
                }
                self.t("]");
            }
            E::Obj(v) => {
                self.t("{");
                for (i, p) in v.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    match p {
                        P::Short(n) => self.id(*n),
                        P::Init(k, e) => {
                            self.key(k);
                            self.t(":");
                            self.pattern(e);
                        }
                        p => self.prop(p),
                    }
                }
                self.t("}");
            }
            e => self.bare(e),
        }
    }
    fn object(&mut self, o: &E) {
        if object_level(o) != level(o) || matches!(o, E::Num(_)) {
            self.t("(");
            self.bare(o);
            self.t(")");
        } else {
            self.bare(o);
        }
    }
    fn prop(&mut self, p: &P) {
        match p {
            P::Init(k, e) => {
                self.key(k);
                self.t(":");
                self.expr(e, 1);
            }
            P::Get(k, b) => {
                self.t("get");
                self.key(k);
                self.t("(");
                self.t(")");
                self.block(b);
            }
            P::Set(k, p, b) => {
                self.t("set");
                self.key(k);
                self.t("(");
                self.id(*p);
                self.t(")");
                self.block(b);
            }
            P::Method(k, f) => {
                if f.gen {
                    self.t("*");
                }
                self.key(k);
                self.fun(f);
            }
            P::Short(n) => self.id(*n),
        }
    }
    fn bare(&mut self, e: &E) {
        match e {
            E::Id(n) => self.id(*n),
            E::Raw(s) => self.t(s),
            E::Name(s) => self.t(s),
            E::Num(n) => self.t(&num(*n).0),
            E::Str(n) => self.t(&string(*n).0),
            E::Re(n) => self.t(&regexp(*n).0),
            E::Lit(k) => self.t(LITS[*k as usize % 4]),
            E::Arr(v) => {
                self.t("[");
                let n = v.len();
                for (i, a) in v.iter().enumerate() {
                    if let Some(a) = a {
                        self.arg(a);
                    }
                    if i + 1 < n || a.is_none() {
                        self.t(",");
                    }
                }
                self.t("]");
            }
            E::Obj(v) => {
                self.t("{");
                for (i, p) in v.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.prop(p);
                }
                self.t("}");
            }
            E::Fun(f) => {
                self.t("function");
                if f.gen {
                    self.t("*");
                }
                if let Some(n) = f.id {
                    self.id(n);
                }
                self.fun(f);
            }
            E::Seq(v) => {
                for (i, e) in v.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.expr(e, 1);
                }
            }
            E::Un(op, a) => {
                self.t(UNOPS[*op as usize % UNOPS.len()]);
                self.expr(a, 13);
            }
            E::Upd { prefix, inc, arg } => {
                let op = if *inc { "++" } else { "--" };
                if *prefix {
                    self.t(op);
                    self.bare(arg);
                } else {
                    self.bare(arg);
                    self.nonl = true;
                    self.t(op);
                }
            }
            E::Bin(op, a, b) => {
                let (s, l) = BINOPS[*op as usize % BINOPS.len()];
                self.expr(a, l);
                self.t(s);
                self.expr(b, l + 1);
            }
            E::Asg(op, t, v) => {
                self.pattern(t);
                self.t(ASSOPS[*op as usize % ASSOPS.len()]);
                self.expr(v, 1);
            }
            E::Cond(a, b, c) => {
                self.expr(a, 3);
                self.t("?");
                self.expr(b, 1);
                self.t(":");
                self.expr(c, 1);
            }
            E::Call(c, v) => {
                self.object(c);
                self.args(v);
            }
            E::New(c, v) => {
                self.t("new");
                // The callee must not contain a call outside brackets.
                if level(c) >= 17 && !matches!(**c, E::Num(_)) && (v.is_some() || !matches!(**c, E::New(..))) {
                    self.bare(c);
                } else {
                    self.t("(");
                    self.bare(c);
                    self.t(")");
                }
                if let Some(v) = v {
                    self.args(v);
                }
            }
            E::Dot(o, k) => {
                self.object(o);
                self.t(".");
                self.key(k);
            }
            E::Brk(o, i) => {
                self.object(o);
                self.t("[");
                self.expr(i, 0);
                self.t("]");
            }
            E::Par(e) => {
                self.t("(");
                self.expr(e, 0);
                self.t(")");
            }
            E::Target => {
                self.t("new");
                self.t(".");
                self.t("target");
            }
        }
    }
}

/// How tokens are joined. Style 0 is one plain space everywhere.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct Style {
    pub seed: u64,
    /// Percentages.
    pub newline: u8,
    pub comment: u8,
    pub tight: u8,
    pub asi: u8,
}
pub const PLAIN: Style = Style { seed: 0, newline: 0, comment: 0, tight: 0, asi: 0 };

fn slashy(s: &str) -> bool {
    s.starts_with('/')
}

/// Can no expression go on (on the next line) with this token?
pub fn asi_ok(next: &str) -> bool {
    !(next.starts_with(|c| "([/+-*,.?:%&|^=!<>`~;".contains(c)) || matches!(next, "in" | "instanceof"))
        || matches!(next, "++" | "--" | "!" | "~")
}

/// Leaves semicolons out where they will be inserted.
pub fn drop_semis(ps: &mut [Piece], st: Style) {
    let mut r = Rng::new(st.seed ^ 0xa51);
    for i in 0..ps.len() {
        if matches!(ps[i].semi, 1 | 2 | 5 | 6) && r.pct(st.asi as usize) {
            ps[i].gone = match ps.get(i + 1) {
                None => Some(ANY),
                Some(n) if n.text == "}" => Some(ANY),
                Some(n) if n.text == ";" || n.nonl => None,
                Some(_) if ps[i].semi == 2 => Some(ANY),
                Some(n) if ps[i].semi > 2 || asi_ok(&n.text) => Some(BROKEN),
                _ => None,
            };
        }
    }
}

pub fn render(ps: &[Piece], st: Style) -> String {
    let mut ps = ps.to_vec();
    drop_semis(&mut ps, st);
    spell(&ps, st)
}

pub fn spell(ps: &[Piece], st: Style) -> String {
    let mut r = Rng::new(st.seed);
    let mut o = String::new();
    let mut prev: Option<&Piece> = None;
    let mut gap: Option<u8> = None;
    for p in ps {
        if let Some(g) = p.gone {
            gap = Some(g);
            continue;
        }
        if let Some(q) = prev {
            let gap = gap.take();
            match gap.or(p.brk) {
                Some(g) if g < BROKEN => {
                    if q.text.ends_with('/') {
                        o.push(' ');
                    }
                    o.push_str(GAPS[g as usize]);
                    if let (Some(_), Some(b)) = (gap, p.brk) {
                        o.push_str(GAPS[b as usize]);
                    }
                }
                g => {
                    let newline = g == Some(BROKEN) || !p.nonl && r.pct(st.newline as usize);
                    let sep = separator(&mut r, st, q, p, newline, p.nonl);
                    o.push_str(&sep);
                }
            }
        }
        o.push_str(&p.text);
        prev = Some(p);
    }
    if let Some(g) = gap {
        o.push_str(GAPS[g as usize]);
    }
    if st.seed != 0 && r.pct(30) {
        let tails: &[&str] = if st.comment == 0 { &["\n", " ", "\r\n", "\u{2028}"] } else { &["\n", " // end", "\n/* end */", "\n-->end", "\n<!--end"] };
        o.push_str(*r.pick(tails));
    }
    o
}

fn separator(r: &mut Rng, st: Style, a: &Piece, b: &Piece, newline: bool, nonl: bool) -> String {
    const LONERS: &[&str] = &["(", ")", "[", "]", "{", "}", ",", ";"];
    if st.seed == 0 {
        return if newline { "\n".into() } else { " ".into() };
    }
    let free = LONERS.contains(&&a.text[..]) || LONERS.contains(&&b.text[..]);
    if free && !newline && !slashy(&a.text) && !slashy(&b.text) && r.pct(st.tight as usize) {
        return String::new();
    }
    let mut s = String::from(*r.pick(&[" ", " ", " ", "\t", "  ", "\u{a0}", "\u{feff} "]));
    if newline {
        s.push_str(*r.pick(&["\n", "\n", "\r\n", "\r", "\u{2028}", "\u{2029}", "\n\n"]));
    }
    if r.pct(st.comment as usize) {
        let c = match r.below(6) {
            0..=2 => "/* c ) } ] \" ' */",
            3 if newline => "// c ( { [ ' \"\n",
            4 if newline => "<!-- c (\n",
            5 if newline => "\n--> c {\n",
            _ => if newline && !nonl { "/* c\n ( */" } else { "/**/" },
        };
        s.push_str(c);
        s.push(' ');
    }
    s
}

pub fn pieces(prog: &[S], st: Style) -> Vec<Piece> {
    let mut e = Emit::new(if st.seed == 0 || st.seed % 3 == 0 { None } else { Some(Rng::new(st.seed ^ 0x9e37)) });
    e.program(prog);
    e.out
}

pub fn text(prog: &[S], st: Style) -> String {
    render(&pieces(prog, st), st)
}

// ------------------------------------------------------------- shrinking

/// Smaller programs, most drastic first.
pub fn smaller(prog: &[S]) -> Vec<Vec<S>> {
    let mut v = vec![];
    let n = prog.len();
    let mut k = n;
    while k > 0 {
        for at in (0..n).step_by(k) {
            let mut p = prog.to_vec();
            p.drain(at..(at + k).min(n));
            v.push(p);
        }
        k /= 2;
    }
    for i in 0..n {
        for s in smaller_stmt(&prog[i]) {
            let mut p = prog.to_vec();
            p.splice(i..i + 1, s);
            v.push(p);
        }
    }
    v
}

fn bx(v: Vec<Vec<S>>) -> Vec<Box<S>> {
    v.into_iter().map(|mut b| if b.len() == 1 { Box::new(b.pop().unwrap()) } else { Box::new(S::Block(b)) }).collect()
}

fn smaller_decls(ds: &[(u32, Option<E>)]) -> Vec<Vec<(u32, Option<E>)>> {
    let mut v = vec![];
    for i in 0..ds.len() {
        if ds.len() > 1 {
            let mut d = ds.to_vec();
            d.remove(i);
            v.push(d);
        }
        if let Some(e) = &ds[i].1 {
            let mut d = ds.to_vec();
            d[i].1 = None;
            v.push(d);
            for x in smaller_expr(e) {
                let mut d = ds.to_vec();
                d[i].1 = Some(x);
                v.push(d);
            }
        }
    }
    v
}

/// Each alternative is a list of statements to put in its place.
fn smaller_stmt(s: &S) -> Vec<Vec<S>> {
    let mut v: Vec<Vec<S>> = vec![];
    macro_rules! one { ($e:expr) => { v.push(vec![$e]) } }
    let sub = |b: &Box<S>| -> Vec<Box<S>> { bx(smaller_stmt(b)) };
    match s {
        S::Empty | S::Raw(_) => {}
        S::Block(b) => {
            v.push(b.clone());
            v.extend(smaller(b).into_iter().map(|x| vec![S::Block(x)]));
        }
        S::Decl(k, ds) => v.extend(smaller_decls(ds).into_iter().map(|d| vec![S::Decl(*k, d)])),
        S::Expr(e) => v.extend(smaller_expr(e).into_iter().map(|x| vec![S::Expr(x)])),
        S::Throw(e) => {
            one!(S::Expr(e.clone()));
            v.extend(smaller_expr(e).into_iter().map(|x| vec![S::Throw(x)]));
        }
        S::Ret(Some(e)) => {
            one!(S::Ret(None));
            one!(S::Expr(e.clone()));
            v.extend(smaller_expr(e).into_iter().map(|x| vec![S::Ret(Some(x))]));
        }
        S::Ret(None) | S::Debugger | S::Break(_) | S::Cont(_) => {}
        S::If(e, a, b) => {
            one!((**a).clone());
            if let Some(b) = b {
                one!((**b).clone());
                one!(S::If(e.clone(), a.clone(), None));
                for x in sub(b) {
                    one!(S::If(e.clone(), a.clone(), Some(x)));
                }
            }
            one!(S::Expr(e.clone()));
            for x in smaller_expr(e) {
                one!(S::If(x, a.clone(), b.clone()));
            }
            for x in sub(a) {
                one!(S::If(e.clone(), x, b.clone()));
            }
        }
        S::Label(l, b) => {
            one!((**b).clone());
            for x in sub(b) {
                one!(S::Label(*l, x));
            }
        }
        S::With(e, b) | S::While(e, b) | S::Do(b, e) => {
            one!((**b).clone());
            one!(S::Expr(e.clone()));
            let mk = |e: E, b: Box<S>| match s {
                S::With(..) => S::With(e, b),
                S::While(..) => S::While(e, b),
                _ => S::Do(b, e),
            };
            for x in smaller_expr(e) {
                one!(mk(x, b.clone()));
            }
            for x in sub(b) {
                one!(mk(e.clone(), x));
            }
        }
        S::Switch(e, cs) => {
            one!(S::Expr(e.clone()));
            for i in 0..cs.len() {
                let mut c = cs.clone();
                let x = c.remove(i);
                one!(S::Switch(e.clone(), c));
                v.push(x.1);
            }
            for x in smaller_expr(e) {
                one!(S::Switch(x, cs.clone()));
            }
            for i in 0..cs.len() {
                if let Some(t) = &cs[i].0 {
                    for x in smaller_expr(t) {
                        let mut c = cs.clone();
                        c[i].0 = Some(x);
                        one!(S::Switch(e.clone(), c));
                    }
                }
                for x in smaller(&cs[i].1) {
                    let mut c = cs.clone();
                    c[i].1 = x;
                    one!(S::Switch(e.clone(), c));
                }
            }
        }
        S::Try(b, c, f) => {
            one!(S::Block(b.clone()));
            if let (Some(c), Some(_)) = (c, f) {
                one!(S::Try(b.clone(), Some(c.clone()), None));
                one!(S::Try(b.clone(), None, f.clone()));
            }
            for x in smaller(b) {
                one!(S::Try(x, c.clone(), f.clone()));
            }
            if let Some((p, c)) = c {
                v.push(c.clone());
                for x in smaller(c) {
                    one!(S::Try(b.clone(), Some((*p, x)), f.clone()));
                }
            }
            if let Some(f) = f {
                v.push(f.clone());
                for x in smaller(f) {
                    one!(S::Try(b.clone(), c.clone(), Some(x)));
                }
            }
        }
        S::For(h, t, u, b) => {
            one!((**b).clone());
            if h.is_some() {
                one!(S::For(None, t.clone(), u.clone(), b.clone()));
            }
            if t.is_some() {
                one!(S::For(h.clone(), None, u.clone(), b.clone()));
            }
            if u.is_some() {
                one!(S::For(h.clone(), t.clone(), None, b.clone()));
            }
            match h {
                Some(H::E(e)) => {
                    for x in smaller_expr(e) {
                        one!(S::For(Some(H::E(x)), t.clone(), u.clone(), b.clone()));
                    }
                }
                Some(H::Decl(k, d)) => {
                    for x in smaller_decls(d) {
                        one!(S::For(Some(H::Decl(*k, x)), t.clone(), u.clone(), b.clone()));
                    }
                }
                None => {}
            }
            if let Some(e) = t {
                for x in smaller_expr(e) {
                    one!(S::For(h.clone(), Some(x), u.clone(), b.clone()));
                }
            }
            if let Some(e) = u {
                for x in smaller_expr(e) {
                    one!(S::For(h.clone(), t.clone(), Some(x), b.clone()));
                }
            }
            for x in sub(b) {
                one!(S::For(h.clone(), t.clone(), u.clone(), x));
            }
        }
        S::ForIn(l, e, b) | S::ForOf(l, e, b) => {
            let mk = |l: L, e: E, b: Box<S>| if matches!(s, S::ForIn(..)) { S::ForIn(l, e, b) } else { S::ForOf(l, e, b) };
            one!((**b).clone());
            one!(S::Expr(e.clone()));
            match l {
                L::E(t) => {
                    for x in smaller_expr(t) {
                        one!(mk(L::E(x), e.clone(), b.clone()));
                    }
                }
                L::VarInit(n, i) => {
                    one!(mk(L::Decl(0, *n), e.clone(), b.clone()));
                    for x in smaller_expr(i) {
                        one!(mk(L::VarInit(*n, x), e.clone(), b.clone()));
                    }
                }
                L::Decl(..) => {}
            }
            for x in smaller_expr(e) {
                one!(mk(l.clone(), x, b.clone()));
            }
            for x in sub(b) {
                one!(mk(l.clone(), e.clone(), x));
            }
        }
        S::Fun(f) => {
            v.push(f.body.clone());
            for x in smaller_fun(f) {
                one!(S::Fun(x));
            }
        }
    }
    v
}

fn smaller_fun(f: &F) -> Vec<F> {
    let mut v = vec![];
    for i in 0..f.params.len() {
        let mut g = f.clone();
        g.params.remove(i);
        v.push(g);
    }
    if f.rest.is_some() {
        v.push(F { rest: None, ..f.clone() });
    }
    if f.gen {
        v.push(F { gen: false, ..f.clone() });
    }
    for b in smaller(&f.body) {
        v.push(F { body: b, ..f.clone() });
    }
    v
}

fn smaller_args(a: &[A]) -> Vec<Vec<A>> {
    let mut v = vec![];
    for i in 0..a.len() {
        let mut x = a.to_vec();
        x.remove(i);
        v.push(x);
        let (e, sp) = match &a[i] {
            A::E(e) => (e, false),
            A::Spread(e) => (e, true),
        };
        if sp {
            let mut x = a.to_vec();
            x[i] = A::E(e.clone());
            v.push(x);
        }
        for y in smaller_expr(e) {
            let mut x = a.to_vec();
            x[i] = if sp { A::Spread(y) } else { A::E(y) };
            v.push(x);
        }
    }
    v
}

pub fn smaller_expr(e: &E) -> Vec<E> {
    let mut v = vec![];
    let simple = matches!(e, E::Id(n) if *n < 7);
    if !simple {
        v.push(E::Id(1));
    }
    macro_rules! sub { ($x:expr, $mk:expr) => {{ v.push((**$x).clone()); for y in smaller_expr($x) { let f: &dyn Fn(Box<E>) -> E = &$mk; v.push(f(Box::new(y))); } }} }
    match e {
        E::Id(_) | E::Name(_) | E::Num(_) | E::Str(_) | E::Re(_) | E::Lit(_) | E::Target | E::Raw(_) => {}
        E::Arr(a) => {
            for i in 0..a.len() {
                let mut x = a.clone();
                let y = x.remove(i);
                v.push(E::Arr(x));
                if let Some(A::E(y)) | Some(A::Spread(y)) = y {
                    v.push(y.clone());
                    for z in smaller_expr(&y) {
                        let mut x = a.clone();
                        x[i] = Some(if matches!(a[i], Some(A::Spread(_))) { A::Spread(z) } else { A::E(z) });
                        v.push(E::Arr(x));
                    }
                }
            }
        }
        E::Obj(ps) => {
            for i in 0..ps.len() {
                let mut x = ps.clone();
                x.remove(i);
                v.push(E::Obj(x));
                let alts: Vec<P> = match &ps[i] {
                    P::Init(k, e) => {
                        v.push(e.clone());
                        let mut a: Vec<P> = smaller_expr(e).into_iter().map(|y| P::Init(k.clone(), y)).collect();
                        if !matches!(k, K::Id(1)) {
                            a.push(P::Init(K::Id(1), e.clone()));
                        }
                        a
                    }
                    P::Get(k, b) => smaller(b).into_iter().map(|y| P::Get(k.clone(), y)).collect(),
                    P::Set(k, n, b) => smaller(b).into_iter().map(|y| P::Set(k.clone(), *n, y)).collect(),
                    P::Method(k, f) => smaller_fun(f).into_iter().map(|y| P::Method(k.clone(), y)).collect(),
                    P::Short(_) => vec![],
                };
                for p in alts {
                    let mut x = ps.clone();
                    x[i] = p;
                    v.push(E::Obj(x));
                }
            }
        }
        E::Fun(f) => {
            for x in smaller_fun(f) {
                v.push(E::Fun(Box::new(x)));
            }
        }
        E::Seq(es) => {
            for i in 0..es.len() {
                v.push(es[i].clone());
                if es.len() > 2 {
                    let mut x = es.clone();
                    x.remove(i);
                    v.push(E::Seq(x));
                }
                for y in smaller_expr(&es[i]) {
                    let mut x = es.clone();
                    x[i] = y;
                    v.push(E::Seq(x));
                }
            }
        }
        E::Un(op, a) => sub!(a, |y| E::Un(*op, y)),
        E::Par(a) => sub!(a, |y| E::Par(y)),
        E::Upd { prefix, inc, arg } => sub!(arg, |y| E::Upd { prefix: *prefix, inc: *inc, arg: y }),
        E::Bin(op, a, b) => {
            sub!(a, |y| E::Bin(*op, y, b.clone()));
            sub!(b, |y| E::Bin(*op, a.clone(), y));
        }
        E::Asg(op, a, b) => {
            sub!(a, |y| E::Asg(*op, y, b.clone()));
            sub!(b, |y| E::Asg(*op, a.clone(), y));
        }
        E::Brk(a, b) => {
            sub!(a, |y| E::Brk(y, b.clone()));
            sub!(b, |y| E::Brk(a.clone(), y));
        }
        E::Cond(a, b, c) => {
            sub!(a, |y| E::Cond(y, b.clone(), c.clone()));
            sub!(b, |y| E::Cond(a.clone(), y, c.clone()));
            sub!(c, |y| E::Cond(a.clone(), b.clone(), y));
        }
        E::Call(c, a) => {
            sub!(c, |y| E::Call(y, a.clone()));
            for x in smaller_args(a) {
                v.push(E::Call(c.clone(), x));
            }
        }
        E::New(c, a) => {
            sub!(c, |y| E::New(y, a.clone()));
            if let Some(a) = a {
                v.push(E::New(c.clone(), None));
                for x in smaller_args(a) {
                    v.push(E::New(c.clone(), Some(x)));
                }
            }
        }
        E::Dot(o, k) => {
            sub!(o, |y| E::Dot(y, k.clone()));
            if !matches!(k, K::Id(1)) {
                v.push(E::Dot(o.clone(), K::Id(1)));
            }
        }
    }
    v
}

pub fn size(prog: &[S]) -> usize {
    // The spelling is a fair measure of a program's size.
    let ps = pieces(prog, PLAIN);
    ps.len() * 4 + ps.iter().map(|p| p.text.len()).sum::<usize>()
}
