//! Generator of C++ entity names: a grammar of ASTs, their canonical text, and
//! differently spelled texts of the same entity.
//!
//! `sanitize` steers clear of texts which C++ itself makes ambiguous, and of
//! the few constructs which the parser documents as unsupported.

use proptest::{collection::vec, option, prelude::*, sample::select, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ty {
    pub attr: Vec<Val>,
    /// 1 = const, 2 = volatile
    pub cv: u8,
    pub base: Base,
    pub decl: Vec<Decl>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Base {
    Legacy(u8),
    Auto(u32),
    Id(Id),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Id {
    pub rooted: bool,
    pub scopes: Vec<Scope>,
    pub last: Unq,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scope {
    pub id: Unq,
    pub sig: Option<Sig>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Unq {
    Named { dtor: bool, name: String, tpl: Option<Tpl> },
    Decltype(Box<Val>),
    /// Arithmetic or comparison operator
    Arith { op: String, tpl: Option<Tpl> },
    /// call, index, new, delete, co_await...
    Other { op: u8, tpl: Option<Tpl> },
    Literal(String),
    Conversion(Box<Ty>),
    ClangLambda { path: Vec<String>, line: u32, col: u32 },
    /// keyword spelling, identifier, location
    ClangAnon { unnamed: bool, id: Option<String>, loc: Option<(Vec<String>, u32, u32)> },
    GnuLambda { sig: Box<Sig>, n: u32 },
    GnuUnnamed(u32),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tpl {
    List(Vec<Arg>),
    Void,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Arg {
    T(Ty),
    V(Val),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sig {
    pub abi: Option<String>,
    pub params: Vec<Ty>,
    pub variadic: bool,
    pub cv: u8,
    pub refs: u8,
    pub noexcept: Option<Option<Box<Val>>>,
    pub ret: Option<Box<Ty>>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Decl {
    Cv(u8),
    Ptr { cv: u8, restrict: bool },
    Member { scopes: Vec<Scope>, cv: u8, restrict: bool },
    Ref(u8),
    Array(Option<Val>),
    Func(Sig),
    Paren(Vec<Decl>),
    Vector(Val),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Val {
    pub head: Head,
    pub trail: Vec<Trail>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Head {
    /// Decimal digits with optional minus sign
    Int(i64, Option<String>),
    Uint(u64, Option<String>),
    Char(char, u8, Option<String>),
    Paren(Box<Val>),
    Unary(String, Box<Val>),
    Cast(Box<Ty>, Box<Val>),
    New { rooted: bool, placement: Option<Vec<Val>>, ty: Box<Ty>, ctor: Option<Vec<Val>> },
    Id(Id),
    Ellipsis,
    SizeOf(Box<Ty>),
    DeclVal(Box<Ty>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Trail {
    Call(Vec<Val>),
    Index(Box<Val>),
    Binary(String, Box<Val>),
    Ternary(Box<Val>, Box<Val>),
    Member(Unq),
    Postfix(bool),
    Ellipsis,
}

pub const LEGACY: &[&str] = &[
    "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long",
    "__int128", "unsigned __int128", "char", "signed char", "unsigned char", "float", "double", "long double",
    "float _Complex", "double _Complex", "long double _Complex",
];
/// Other accepted spellings (as keyword multisets) of the legacy names
fn legacy_spellings(i: usize) -> Vec<Vec<&'static str>> {
    match i {
        0 => vec![vec!["short"], vec!["short", "int"], vec!["signed", "short"], vec!["signed", "short", "int"]],
        1 => vec![vec!["unsigned", "short"], vec!["unsigned", "short", "int"]],
        2 => vec![vec!["int"], vec!["signed"], vec!["signed", "int"]],
        3 => vec![vec!["unsigned"], vec!["unsigned", "int"]],
        4 => vec![vec!["long"], vec!["long", "int"], vec!["signed", "long"], vec!["signed", "long", "int"]],
        5 => vec![vec!["unsigned", "long"], vec!["unsigned", "long", "int"]],
        6 => vec![vec!["long", "long"], vec!["long", "long", "int"], vec!["signed", "long", "long"]],
        7 => vec![vec!["unsigned", "long", "long"], vec!["unsigned", "long", "long", "int"]],
        8 => vec![vec!["__int128"], vec!["signed", "__int128"]],
        9 => vec![vec!["unsigned", "__int128"]],
        10 => vec![vec!["char"]],
        11 => vec![vec!["signed", "char"]],
        12 => vec![vec!["unsigned", "char"]],
        13 => vec![vec!["float"]],
        14 => vec![vec!["double"]],
        15 => vec![vec!["long", "double"]],
        16 => vec![vec!["float", "_Complex"]],
        17 => vec![vec!["double", "_Complex"]],
        _ => vec![vec!["long", "double", "_Complex"]],
    }
}

pub const NAMES: &[&str] = &[
    "a", "b", "T", "x1", "_", "foo", "bar", "Baz_2", "std", "vector", "type", "__1", "A$b", "value", "allocator",
    // Identifiers which start like keywords or literals
    "newton", "news", "sizeof_x", "sizeofx", "declvalue", "operators", "operator_", "decltype_of", "decltypes", "constant", "const_",
    "volatile_x", "longer", "int32", "unsigned_t", "shorty", "auto_x", "classy", "typename_", "structure", "enumerate", "unions",
    "noexcept_x", "delete_me", "deleter", "co_await_x", "restricted", "__restrict_t", "__vectors", "__attribute", "u8x", "L", "u", "U",
    "doubles", "chars", "floaty", "signedness", "lambda", "anonymous", "unnamed", "unknown", "void", "bool", "nullptr", "abi", "d", "o",
    "c", "v", "__int128_x", "_Complexity",
];
const ARITH: &[&str] = &[
    "+", "-", "*", "/", "%", "^", "&", "|", "~", "!", "=", "<", ">", ",", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "==", "!=",
    "<=", ">=", "<<", ">>", "&&", "||", "++", "--", "<<=", ">>=", "->", "->*", "<=>",
];
const OTHER: &[&str] = &["operator()", "operator[]", "operator new", "operator new[]", "operator delete", "operator delete[]", "operator co_await"];
const BINARY: &[&str] = &[
    "+", "-", "*", "/", "%", "^", "&", "|", "=", "<", ">", ",", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "==", "!=", "<=", ">=",
    "<<", ">>", "&&", "||", "<<=", ">>=", "<=>", "->", "->*",
];
const UNARY: &[&str] = &["+", "-", "*", "&", "~", "!", "++", "--", "delete ", "delete[] ", "co_await "];

// ------------------------------------------------------------------ emission

/// Cheap deterministic random numbers for spelling decisions
#[derive(Clone, Debug)]
pub struct Noise(u64);
impl Noise {
    pub fn new(seed: u64) -> Self {
        Noise(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1)
    }
    pub fn next(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) % n
    }
}

#[derive(Default)]
struct Out {
    s: String,
    noise: Option<Noise>,
    /// Emitted optional separator, which may be dropped depending on what follows
    pending: bool,
}
impl Out {
    fn roll(&mut self, n: u64) -> bool {
        self.noise.as_mut().is_some_and(|x| x.next(n) == 0)
    }
    fn pick(&mut self, n: usize) -> usize {
        self.noise.as_mut().map_or(0, |x| x.next(n as u64) as usize)
    }
    fn t(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        if self.pending {
            self.pending = false;
            let safe = s.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '(');
            if !(safe && self.roll(2)) {
                self.sp();
            }
        }
        self.s.push_str(s);
    }
    /// Place where white space is allowed, but not canonical
    fn w(&mut self) {
        if self.pending {
            return;
        }
        if self.roll(5) {
            let n = self.pick(4);
            self.s.push_str([" ", "  ", "\t", "\n"][n]);
        }
    }
    /// Place where white space is needed
    fn sp(&mut self) {
        let n = if self.roll(6) { 1 + self.pick(4) } else { 0 };
        self.s.push_str([" ", "  ", "\t", " \n ", "\r\n"][n]);
    }
    /// Space which may be left out when nothing gets glued (before an operator symbol)
    fn sp_before_op(&mut self) {
        let last_ok = self.s.ends_with(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == ')' || c == ']');
        if !(last_ok && self.roll(2)) {
            self.sp();
        }
    }
}

fn cv_words(o: &mut Out, cv: u8) {
    match cv & 3 {
        1 => o.t("const"),
        2 => o.t("volatile"),
        3 => {
            if o.roll(2) {
                o.t("volatile");
                o.sp();
                o.t("const");
            } else {
                o.t("const");
                o.sp();
                o.t("volatile");
                if o.roll(8) {
                    o.sp();
                    o.t("const");
                }
            }
        }
        _ => {}
    }
}

fn list<T>(o: &mut Out, items: &[T], mut f: impl FnMut(&mut Out, &T)) {
    o.w();
    for (i, x) in items.iter().enumerate() {
        if i > 0 {
            o.w();
            o.t(",");
            if !o.roll(3) {
                o.sp();
            }
        }
        f(o, x);
    }
    if !items.is_empty() {
        o.w();
    }
}

impl Ty {
    fn emit(&self, o: &mut Out) {
        if !self.attr.is_empty() {
            o.t("__attribute__(");
            call(o, &self.attr);
            o.t(")");
            o.sp();
        }
        if self.cv & 3 != 0 {
            cv_words(o, self.cv);
            o.sp();
        }
        match &self.base {
            Base::Legacy(i) => {
                let i = *i as usize % LEGACY.len();
                if o.noise.is_some() {
                    let spell = legacy_spellings(i);
                    let k = o.pick(spell.len());
                    let mut words = spell[k].clone();
                    if o.roll(2) {
                        for a in (1..words.len()).rev() {
                            let b = o.pick(a + 1);
                            words.swap(a, b);
                        }
                    }
                    for (n, w) in words.iter().enumerate() {
                        if n > 0 {
                            o.sp();
                        }
                        o.t(w);
                    }
                } else {
                    o.t(LEGACY[i]);
                }
            }
            Base::Auto(n) => o.t(&format!("auto:{n}")),
            Base::Id(id) => {
                if o.roll(6) {
                    let k = o.pick(5);
                    o.t(["typename", "class", "struct", "enum", "union"][k]);
                    o.sp();
                }
                id.emit(o);
            }
        }
        decls(o, &self.decl, true);
    }
}
fn decls(o: &mut Out, d: &[Decl], after_type: bool) {
    for (i, x) in d.iter().enumerate() {
        // A scope can only be told from a function declarator when nothing intervenes: any spacing will do here
        if i > 0 || after_type {
            let word = matches!(x, Decl::Cv(_) | Decl::Member { .. } | Decl::Vector(_) | Decl::Paren(_));
            if !word {
                o.w();
            }
        }
        x.emit(o);
        o.w();
    }
}
impl Decl {
    fn emit(&self, o: &mut Out) {
        match self {
            Decl::Cv(c) => {
                o.sp();
                cv_words(o, *c);
            }
            Decl::Ptr { cv, restrict } => {
                o.t("*");
                ptr_quals(o, *cv, *restrict);
            }
            Decl::Member { scopes, cv, restrict } => {
                o.sp();
                for s in scopes {
                    s.emit(o);
                }
                o.t("*");
                ptr_quals(o, *cv, *restrict);
            }
            Decl::Ref(n) => o.t(if *n == 1 { "&" } else { "&&" }),
            Decl::Array(v) => {
                o.t("[");
                o.w();
                if let Some(v) = v {
                    v.emit(o);
                    o.w();
                }
                o.t("]");
            }
            Decl::Func(s) => s.emit(o),
            Decl::Paren(d) => {
                if !o.roll(2) {
                    o.sp();
                }
                o.t("(");
                o.w();
                decls(o, d, false);
                o.t(")");
            }
            Decl::Vector(v) => {
                o.sp();
                o.t("__vector(");
                v.emit(o);
                o.t(")");
            }
        }
    }
}
fn ptr_quals(o: &mut Out, cv: u8, restrict: bool) {
    let first = restrict && cv & 3 != 0 && o.roll(2);
    let r = |o: &mut Out| {
        o.sp();
        let k = o.pick(3);
        o.t(["restrict", "__restrict", "__restrict__"][k]);
    };
    if first {
        r(o);
    }
    if cv & 3 != 0 {
        o.sp();
        cv_words(o, cv);
    }
    if restrict && !first {
        r(o);
    }
}
impl Id {
    fn emit(&self, o: &mut Out) {
        if self.rooted {
            o.t("::");
        }
        for s in &self.scopes {
            s.emit(o);
        }
        self.last.emit(o);
    }
}
impl Scope {
    fn emit(&self, o: &mut Out) {
        self.id.emit(o);
        if let Some(s) = &self.sig {
            s.emit(o);
            o.w();
        }
        o.t("::");
    }
}
impl Tpl {
    fn emit(&self, o: &mut Out) {
        match self {
            Tpl::Void => {
                o.t("<");
                o.w();
                o.t(", void>");
            }
            Tpl::List(l) => {
                o.t("<");
                list(o, l, |o, a| match a {
                    Arg::T(t) => t.emit(o),
                    Arg::V(v) => v.emit(o),
                });
                o.t(">");
            }
        }
    }
}
/// Path text; noise adds redundant components
fn path(o: &mut Out, p: &[String]) {
    if p.is_empty() {
        o.t("/");
    }
    for c in p {
        if o.roll(6) {
            let k = o.pick(3);
            o.t(["/.", "/zz/..", "/"][k]);
        }
        o.t("/");
        o.t(c);
    }
}
impl Unq {
    fn emit(&self, o: &mut Out) {
        match self {
            Unq::Named { dtor, name, tpl } => {
                if *dtor {
                    o.t("~");
                }
                o.t(name);
                if let Some(t) = tpl {
                    o.w();
                    t.emit(o);
                }
            }
            Unq::Decltype(v) => {
                o.t("decltype(");
                o.w();
                v.emit(o);
                o.w();
                o.t(")");
            }
            Unq::Arith { op, tpl } => {
                o.t("operator");
                o.t(op);
                if let Some(t) = tpl {
                    o.w();
                    t.emit(o);
                }
            }
            Unq::Other { op, tpl } => {
                let s = OTHER[*op as usize % OTHER.len()];
                if let Some(rest) = s.strip_prefix("operator ") {
                    o.t("operator");
                    o.sp();
                    o.t(rest);
                } else {
                    o.t(s);
                }
                if let Some(t) = tpl {
                    o.w();
                    t.emit(o);
                }
            }
            Unq::Literal(id) => {
                o.t("operator");
                o.w();
                o.t("\"\"");
                if !o.roll(2) {
                    o.sp();
                }
                o.t(id);
            }
            Unq::Conversion(t) => {
                o.t("operator");
                o.sp();
                t.emit(o);
            }
            Unq::ClangLambda { path: p, line, col } => {
                o.t("(lambda at ");
                path(o, p);
                o.t(&format!(":{line}:{col})"));
            }
            Unq::ClangAnon { unnamed, id, loc } => {
                o.t(if *unnamed && o.noise.is_some() { "(unnamed" } else { "(anonymous" });
                if let Some(id) = id {
                    o.t(" ");
                    o.t(id);
                    if let Some((p, l, c)) = loc {
                        o.t(" at ");
                        path(o, p);
                        o.t(&format!(":{l}:{c}"));
                    }
                }
                o.t(")");
            }
            Unq::GnuLambda { sig, n } => {
                o.t("{lambda");
                sig.emit(o);
                o.w();
                o.t(&format!("#{n}}}"));
            }
            Unq::GnuUnnamed(n) => o.t(&format!("{{unnamed type#{n}}}")),
        }
    }
}
impl Sig {
    fn emit(&self, o: &mut Out) {
        if let Some(a) = &self.abi {
            o.t(&format!("[abi:{a}]"));
        }
        o.t("(");
        list(o, &self.params, |o, p| p.emit(o));
        if self.variadic {
            if !self.params.is_empty() {
                o.t(",");
                if !o.roll(3) {
                    o.sp();
                }
            }
            o.t("...");
            o.w();
        }
        o.t(")");
        if self.cv & 3 != 0 {
            if !o.roll(3) {
                o.sp();
            }
            cv_words(o, self.cv);
        }
        if self.refs > 0 {
            if !o.roll(3) {
                o.sp();
            }
            o.t(if self.refs == 1 { "&" } else { "&&" });
        }
        if let Some(n) = &self.noexcept {
            if self.cv & 3 != 0 && self.refs == 0 || !o.roll(3) {
                o.sp();
            }
            o.t("noexcept");
            if let Some(v) = n {
                o.t("(");
                o.w();
                v.emit(o);
                o.w();
                o.t(")");
            }
        }
        if let Some(r) = &self.ret {
            if !o.roll(3) {
                o.sp();
            }
            o.t("->");
            if !o.roll(3) {
                o.sp();
            }
            r.emit(o);
        }
    }
}
fn call(o: &mut Out, args: &[Val]) {
    o.t("(");
    list(o, args, |o, a| a.emit(o));
    o.t(")");
}
fn char_text(c: char) -> String {
    match c {
        '\t' => "\\t".into(),
        '\r' => "\\r".into(),
        '\n' => "\\n".into(),
        '\'' => "\\'".into(),
        '\\' => "\\\\".into(),
        '\0' => "\\0".into(),
        // Printable
        c if c == '"' || c.escape_debug().count() == 1 => c.to_string(),
        c if (c as u32) < 0x100 => format!("\\x{:02x}", c as u32),
        c => format!("\\u{:04x}", c as u32),
    }
}
impl Val {
    fn emit(&self, o: &mut Out) {
        match &self.head {
            Head::Int(i, suf) => {
                o.t(&i.to_string());
                if let Some(s) = suf {
                    o.t(s);
                } else if o.roll(4) {
                    let k = o.pick(10);
                    o.t(["u", "U", "l", "L", "ul", "UL", "ull", "LL", "z", "uz"][k]);
                }
            }
            Head::Uint(u, suf) => {
                o.t(&u.to_string());
                if let Some(s) = suf {
                    o.t(s);
                } else if o.roll(2) {
                    o.t("ULL");
                }
            }
            Head::Char(c, prefix, suf) => {
                if o.noise.is_some() {
                    o.t(["", "u8", "u", "U", "L"][*prefix as usize % 5]);
                }
                let text = char_text(*c);
                let text = if o.roll(3) && (*c as u32) < 0x100 {
                    let k = o.pick(2);
                    if k == 0 { format!("\\x{:X}", *c as u32) } else { format!("\\{:o}", *c as u32) }
                } else if *c == '"' && o.roll(2) {
                    "\\\"".to_string()
                } else {
                    text
                };
                o.t(&format!("'{text}'"));
                if let Some(s) = suf {
                    o.t(s);
                }
            }
            Head::Paren(v) => {
                o.t("(");
                o.w();
                v.emit(o);
                o.w();
                o.t(")");
            }
            Head::Unary(op, v) => {
                o.t(op);
                let inner = v.canonical();
                if (op == "+" || op == "-") && (inner.starts_with(op.as_str()) || matches!(v.head, Head::Int(..))) {
                    o.sp();
                } else if op.ends_with(' ') {
                    o.w();
                } else if !inner.starts_with(['+', '-', '&', '*']) {
                    // (white space there is allowed)
                    o.w();
                }
                v.emit(o);
            }
            Head::Cast(t, v) => {
                o.t("(");
                o.w();
                t.emit(o);
                o.w();
                o.t(")");
                o.w();
                v.emit(o);
            }
            Head::New { rooted, placement, ty, ctor } => {
                o.t(if *rooted { "::new" } else { "new" });
                if let Some(p) = placement {
                    o.w();
                    call(o, p);
                }
                o.sp();
                ty.emit(o);
                if let Some(c) = ctor {
                    call(o, c);
                }
            }
            Head::Id(i) => i.emit(o),
            Head::Ellipsis => o.t("..."),
            Head::SizeOf(t) => {
                o.t("sizeof(");
                if t.attr.is_empty() {
                    o.w();
                }
                t.emit(o);
                o.t(")");
            }
            Head::DeclVal(t) => {
                o.t("declval(");
                if t.attr.is_empty() {
                    o.w();
                }
                t.emit(o);
                o.t(")");
            }
        }
        for t in &self.trail {
            match t {
                Trail::Call(a) => call(o, a),
                Trail::Index(v) => {
                    o.t("[");
                    o.w();
                    v.emit(o);
                    o.w();
                    o.t("]");
                }
                Trail::Binary(op, v) => {
                    if op.starts_with("->") {
                        o.t(op);
                        v.emit(o);
                    } else {
                        o.sp_before_op();
                        o.t(op);
                        if o.noise.is_some() && !op.starts_with(['<', '>']) {
                            o.pending = true;
                        } else {
                            o.sp();
                        }
                        v.emit(o);
                    }
                }
                Trail::Ternary(a, b) => {
                    o.sp_before_op();
                    o.t("?");
                    o.sp();
                    a.emit(o);
                    o.sp();
                    o.t(":");
                    o.sp();
                    b.emit(o);
                }
                Trail::Member(m) => {
                    o.t(".");
                    m.emit(o);
                }
                Trail::Postfix(inc) => o.t(if *inc { "++" } else { "--" }),
                Trail::Ellipsis => o.t("..."),
            }
        }
    }
    pub fn canonical(&self) -> String {
        let mut o = Out::default();
        self.emit(&mut o);
        o.s
    }
}
impl Ty {
    /// Text in the canonical spelling
    pub fn canonical(&self) -> String {
        let mut o = Out::default();
        self.emit(&mut o);
        o.s
    }
    /// Another text of the same entity (seed 0: the canonical text)
    pub fn spelled(&self, seed: u64) -> String {
        if seed == 0 {
            return self.canonical();
        }
        let mut o = Out { noise: Some(Noise::new(seed)), ..Out::default() };
        self.emit(&mut o);
        o.s
    }
}

// -------------------------------------------------------------- sanitization

#[derive(Clone, Copy, PartialEq)]
enum Tail {
    Name,
    New,
    Ellipsis,
    Other,
}
fn unq_tail(u: &Unq) -> Tail {
    match u {
        Unq::Named { tpl: None, .. } | Unq::Other { tpl: None, .. } | Unq::Arith { tpl: None, .. } | Unq::Literal(_) => Tail::Name,
        _ => Tail::Other,
    }
}
fn head_tail(h: &Head) -> Tail {
    match h {
        Head::Unary(_, v) | Head::Cast(_, v) => tail(v),
        Head::New { .. } => Tail::New,
        Head::Id(i) => unq_tail(&i.last),
        Head::Ellipsis => Tail::Ellipsis,
        _ => Tail::Other,
    }
}
fn trail_tail(t: &Trail) -> Tail {
    match t {
        Trail::Binary(_, v) | Trail::Ternary(_, v) => tail(v),
        Trail::Member(m) => unq_tail(m),
        Trail::Ellipsis => Tail::Ellipsis,
        _ => Tail::Other,
    }
}
fn tail(v: &Val) -> Tail {
    v.trail.last().map(trail_tail).unwrap_or_else(|| head_tail(&v.head))
}
fn int(i: i64) -> Val {
    Val { head: Head::Int(i, None), trail: vec![] }
}
fn plain(name: &str) -> Unq {
    Unq::Named { dtor: false, name: name.into(), tpl: None }
}
/// Wrap the last operand, such that more operators may follow
fn close(v: &mut Val) {
    let mut inner = std::mem::replace(v, int(0));
    not_type(&mut inner);
    *v = Val { head: Head::Paren(Box::new(inner)), trail: vec![] };
}
fn starts_untyped(h: &Head) -> bool {
    match h {
        Head::Int(..) | Head::Uint(..) | Head::Char(..) | Head::Cast(..) | Head::Paren(_) | Head::Ellipsis => true,
        Head::Unary(op, _) => !matches!(op.as_str(), "~" | "delete " | "delete[] " | "co_await "),
        _ => false,
    }
}
/// Make sure that a value cannot be read as a type
fn not_type(v: &mut Val) {
    if !starts_untyped(&v.head) {
        if tail(v) == Tail::New {
            // `new T` is never a type
            if v.trail.is_empty() {
                return;
            }
            if let Some(Trail::Binary(_, r) | Trail::Ternary(_, r)) = v.trail.last_mut() {
                close_new(r);
            }
        }
        if matches!(tail(v), Tail::New) {
            return;
        }
        v.trail.push(Trail::Binary("+".into(), Box::new(int(1))));
    }
}
/// Parenthesize the new-expression which ends a value
fn close_new(v: &mut Val) {
    if tail(v) != Tail::New {
        return;
    }
    if let Some(t) = v.trail.last_mut() {
        if let Trail::Binary(_, r) | Trail::Ternary(_, r) = t {
            close_new(r);
        }
    } else {
        match &mut v.head {
            Head::Unary(_, r) | Head::Cast(_, r) => close_new(r),
            Head::New { .. } => close(v),
            _ => {}
        }
    }
}

#[derive(Clone, Copy)]
struct Ctx {
    comma: bool,
    greater: bool,
}

fn fix_suffix(suffix: &mut Option<String>) {
    if let Some(s) = suffix {
        if !s.starts_with('_') {
            s.insert(0, '_');
        }
    }
}
fn fix_val(v: &mut Val, cx: Ctx) {
    let inner = Ctx { comma: false, greater: true };
    match &mut v.head {
        Head::Int(i, suf) => {
            fix_suffix(suf);
            if *i == i64::MIN {
                *i = -1;
            }
        }
        Head::Uint(u, suf) => {
            fix_suffix(suf);
            *u |= 1 << 63
        }
        Head::Char(_, _, suf) => fix_suffix(suf),
        Head::Paren(p) => {
            fix_val(p, Ctx { comma: true, greater: true });
            not_type(p);
        }
        Head::Unary(op, x) => {
            fix_val(x, cx);
            // `&&x` and friends would be other tokens
            let text = x.canonical();
            if (op == "-" && text == "9223372036854775808")
                || (op == "&" && text.starts_with('&'))
                || (op == "~" && matches!(x.head, Head::Char(..)))
                || (op == "~" && text.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_' || c == '$'))
                || ((op == "++" || op == "--") && text.starts_with(['+', '-']))
                || (op == "-" && text.starts_with("--"))
                || (op.starts_with("delete") && text.starts_with('['))
            {
                *op = "!".into();
            }
            if op == "-" && text.starts_with('-') && text[1..].starts_with(|c: char| c.is_ascii_digit()) {
                // (fine: `- -1`)
            }
        }
        Head::Cast(t, x) => {
            fix_ty(t, TyCtx::default());
            if matches!(t.canonical().as_str(), "anonymous" | "unnamed") {
                t.base = Base::Id(Id { rooted: false, scopes: vec![], last: plain("T") });
            }
            fix_val(x, cx);
        }
        Head::New { placement, ty, ctor, .. } => {
            fix_ty(ty, TyCtx::default());
            // The type of a new-expression is as simple as it gets, otherwise its end is ambiguous
            ty.decl.retain(|d| matches!(d, Decl::Ptr { .. }));
            ty.attr.clear();
            if let Base::Id(id) = &mut ty.base {
                if !matches!(id.last, Unq::Named { dtor: false, .. }) {
                    id.last = plain("T");
                }
                if id.scopes.iter().any(|s| matches!(s.id, Unq::ClangLambda { .. } | Unq::ClangAnon { .. })) {
                    id.scopes.clear();
                }
                if id.rooted && (placement.is_some() || ty.cv != 0) {
                    id.rooted = false;
                }
            }
            for a in placement.iter_mut().flatten().chain(ctor.iter_mut().flatten()) {
                fix_val(a, inner);
            }
            // (`new T(f(x)->m)` may be read as a parameter which is a function type)
            for a in ctor.iter_mut().flatten() {
                if a.canonical().contains("->") {
                    not_type(a);
                }
            }
            // `new T((x))` could just as well be the type `T ((x))`
            if let Some(a) = ctor.iter_mut().flatten().next() {
                if a.canonical().starts_with('(') {
                    *a = int(1);
                }
            }
        }
        Head::Id(i) => fix_id(i, true),
        Head::Ellipsis => {}
        Head::SizeOf(t) | Head::DeclVal(t) => fix_ty(t, TyCtx::default()),
    }
    let trail = std::mem::take(&mut v.trail);
    for mut t in trail {
        // What precedes
        match tail(v) {
            Tail::New => close_last(v),
            Tail::Ellipsis if matches!(t, Trail::Member(_) | Trail::Ellipsis) => continue,
            _ => {}
        }
        match &mut t {
            Trail::Call(a) => a.iter_mut().for_each(|a| fix_val(a, inner)),
            Trail::Index(i) => fix_val(i, inner),
            Trail::Binary(op, r) => {
                fix_val(r, cx);
                if op == "," && !cx.comma || op.starts_with('>') && !cx.greater || op == "<" && tail(v) == Tail::Name {
                    *op = "+".into();
                }
                if v.canonical().contains("operator<<") && (op.starts_with('>') || r.canonical().contains('>')) {
                    // (`operator<<(T)::f > 1` can be read as `operator<` with argument `(T)::f`)
                    *op = "+".into();
                    **r = int(1);
                }
                if op.starts_with('&') && r.canonical().starts_with("::") {
                    // (`f() & ::x` can be read as a function type which is a scope)
                    *op = "+".into();
                }
                if op.starts_with("->") {
                    // Member access, not arithmetic
                    r.head = Head::Id(Id { rooted: false, scopes: vec![], last: plain("m") });
                    r.trail.clear();
                }
            }
            Trail::Ternary(a, b) => {
                fix_val(a, cx);
                fix_val(b, cx);
            }
            Trail::Member(m) => {
                fix_unq(m, true);
                if let Unq::Conversion(_) | Unq::Arith { .. } | Unq::Literal(_) = m {
                    *m = plain("m");
                }
            }
            Trail::Postfix(_) | Trail::Ellipsis => {}
        }
        v.trail.push(t);
    }
}
fn close_last(v: &mut Val) {
    if v.trail.is_empty() {
        match &mut v.head {
            Head::Unary(_, r) | Head::Cast(_, r) => close_new(r),
            _ => close(v),
        }
    } else if let Some(Trail::Binary(_, r) | Trail::Ternary(_, r)) = v.trail.last_mut() {
        close_new(r);
    }
}
fn fix_id(i: &mut Id, in_value: bool) {
    i.scopes.iter_mut().for_each(|s| fix_scope(s, false));
    fix_unq(&mut i.last, in_value);
    if in_value {
        if let Unq::Conversion(_) | Unq::Arith { .. } = i.last {
            i.last = plain("x");
        }
    }
}
fn fix_scope(s: &mut Scope, member: bool) {
    fix_unq(&mut s.id, false);
    if let Some(sig) = &mut s.sig {
        fix_sig(sig);
        sig.ret = None;
    }
    match &s.id {
        Unq::Conversion(_) => s.id = plain("S"),
        // (as in types, can only be followed by parameters)
        Unq::Arith { .. } if !matches!(s.sig, Some(Sig { abi: None, .. })) => s.id = plain("S"),
        // (`A<operator<<(T)>` can be read as `operator<` with argument `(T)`)
        Unq::Arith { op, tpl: None } if op == "<<" && in_template() => s.id = plain("S"),
        Unq::ClangAnon { id: None, .. } if member => s.id = plain("S"),
        _ => {}
    }
}
fn fix_unq(u: &mut Unq, _in_value: bool) {
    let tpl = match u {
        Unq::Named { tpl, .. } | Unq::Arith { tpl, .. } | Unq::Other { tpl, .. } => tpl.as_mut(),
        Unq::Decltype(v) => {
            fix_val(v, Ctx { comma: false, greater: true });
            None
        }
        Unq::Conversion(t) => {
            fix_ty(t, TyCtx::default());
            None
        }
        Unq::GnuLambda { sig, .. } => {
            fix_sig(sig);
            None
        }
        _ => None,
    };
    if let Some(Tpl::List(l)) = tpl {
        let _nested = Nested::new();
        for a in l {
            match a {
                Arg::T(t) => fix_ty(t, TyCtx { in_template: true, ..TyCtx::default() }),
                Arg::V(v) => {
                    fix_val(v, Ctx { comma: false, greater: false });
                    not_type(v);
                }
            }
        }
    }
}
thread_local! { static TEMPLATES: std::cell::Cell<u32> = const { std::cell::Cell::new(0) } }
/// Template argument lists being sanitized
struct Nested;
impl Nested {
    fn new() -> Self {
        TEMPLATES.with(|t| t.set(t.get() + 1));
        Nested
    }
}
impl Drop for Nested {
    fn drop(&mut self) {
        TEMPLATES.with(|t| t.set(t.get() - 1));
    }
}
fn in_template() -> bool {
    TEMPLATES.with(|t| t.get() > 0)
}
fn fix_sig(s: &mut Sig) {
    s.params.iter_mut().for_each(|p| fix_ty(p, TyCtx::default()));
    if let Some(Some(v)) = &mut s.noexcept {
        fix_val(v, Ctx { comma: false, greater: true });
    }
    if let Some(r) = &mut s.ret {
        fix_ty(r, TyCtx::default());
    }
}

#[derive(Clone, Copy, Default)]
struct TyCtx {
    in_template: bool,
}
fn fix_ty(t: &mut Ty, _cx: TyCtx) {
    for a in &mut t.attr {
        fix_val(a, Ctx { comma: false, greater: true });
    }
    fix_decls(&mut t.decl, false);
    if let Base::Id(id) = &mut t.base {
        fix_id(id, false);
        if let Unq::Arith { .. } = id.last {
            // An arithmetic operator can only be followed by its parameters
            if !matches!(t.decl.first(), Some(Decl::Func(Sig { abi: None, .. }))) {
                t.decl.retain(|d| !matches!(d, Decl::Func(_)));
                t.decl.insert(0, Decl::Func(Sig { abi: None, params: vec![], variadic: false, cv: 0, refs: 0, noexcept: None, ret: None }));
                fix_decls(&mut t.decl, false);
            }
        }
        if let Unq::Arith { op, tpl: None } = &mut id.last {
            // Could be read as `operator<` with a template argument in parentheses
            if op == "<<" && in_template() {
                *op = "<<=".into();
            }
        }
        if let Unq::Other { op, tpl: None } = &id.last {
            // `operator new []` is another operator than `operator new`
            if OTHER[*op as usize % OTHER.len()].ends_with(['w', 'e']) {
                if let Some(Decl::Array(n @ None)) = t.decl.first_mut() {
                    *n = Some(int(1));
                }
            }
        }
        if let Unq::Conversion(inner) = &mut id.last {
            // The type of a conversion extends as far as possible
            if !t.decl.is_empty() {
                inner.decl.append(&mut t.decl);
                fix_ty(inner, TyCtx::default());
            }
        }
    }
}
fn fix_decls(d: &mut Vec<Decl>, paren: bool) {
    let old = std::mem::take(d);
    for mut x in old {
        let prev = d.last();
        let after_func = matches!(prev, Some(Decl::Func(_)));
        if matches!(prev, Some(Decl::Func(Sig { ret: Some(_), .. }))) {
            break;
        }
        if matches!(prev, Some(Decl::Func(Sig { noexcept: Some(None), .. }))) && matches!(x, Decl::Func(_) | Decl::Paren(_)) {
            // (would be an argument of noexcept)
            continue;
        }
        match &mut x {
            Decl::Cv(c) => {
                if *c & 3 == 0 || after_func || (paren && prev.is_none()) || matches!(prev, Some(Decl::Ptr { .. } | Decl::Member { .. } | Decl::Cv(_))) {
                    continue;
                }
            }
            Decl::Ptr { .. } => {}
            Decl::Member { scopes, .. } => {
                if scopes.is_empty() {
                    continue;
                }
                scopes.iter_mut().for_each(|s| fix_scope(s, true));
                // `restrict` and cv-qualifiers cannot be told from a scope's name
            }
            Decl::Ref(n) => {
                *n = (*n).clamp(1, 2);
                if after_func || matches!(prev, Some(Decl::Ref(_))) {
                    continue;
                }
            }
            Decl::Array(v) => {
                if let Some(v) = v {
                    fix_val(v, Ctx { comma: false, greater: true });
                }
            }
            Decl::Func(s) => {
                if paren && prev.is_none() {
                    continue;
                }
                fix_sig(s);
            }
            Decl::Paren(p) => {
                fix_decls(p, true);
                if p.is_empty() {
                    continue;
                }
            }
            Decl::Vector(v) => {
                fix_val(v, Ctx { comma: false, greater: true });
                if paren && prev.is_none() {
                    continue;
                }
            }
        }
        d.push(x);
    }
}
pub fn sanitize(mut t: Ty) -> Ty {
    fix_ty(&mut t, TyCtx::default());
    t
}

// ---------------------------------------------------------------- strategies

#[derive(Clone)]
struct Level {
    ty: BoxedStrategy<Ty>,
    val: BoxedStrategy<Val>,
    id: BoxedStrategy<Id>,
    unq: BoxedStrategy<Unq>,
    sig: BoxedStrategy<Sig>,
    decl: BoxedStrategy<Decl>,
}

pub fn name() -> BoxedStrategy<String> {
    prop_oneof![4 => select(NAMES).prop_map(|s| s.to_string()), 1 => "[a-zA-Z_$][a-zA-Z0-9_$]{0,8}".prop_filter("keyword", |s| !is_keyword(s))].boxed()
}
pub fn is_keyword(s: &str) -> bool {
    const K: &[&str] = &[
        "const", "volatile", "typename", "class", "struct", "enum", "union", "new", "delete", "operator", "float", "double", "long", "unsigned",
        "char", "int", "signed", "short", "noexcept", "restrict", "decltype", "sizeof", "auto", "at", "__restrict", "declval",
    ];
    K.contains(&s)
}
fn cv() -> BoxedStrategy<u8> {
    prop_oneof![5 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)].boxed()
}
fn path_strategy() -> BoxedStrategy<Vec<String>> {
    vec(
        prop_oneof![3 => "[a-zA-Z0-9_.+-]{1,8}", 1 => "[a-z ,()<>]{1,6}"].prop_filter("dots", |s| s != "." && s != ".."),
        1..5,
    )
    .boxed()
}
fn leaf_level() -> Level {
    let unq = name().prop_map(|n| Unq::Named { dtor: false, name: n, tpl: None }).boxed();
    let id = unq.clone().prop_map(|u| Id { rooted: false, scopes: vec![], last: u }).boxed();
    let ty = (cv(), prop_oneof![
        2 => (0u8..19).prop_map(Base::Legacy),
        3 => id.clone().prop_map(Base::Id),
        1 => any::<u32>().prop_map(Base::Auto),
    ]).prop_map(|(cv, base)| Ty { attr: vec![], cv, base, decl: vec![] }).boxed();
    let val = prop_oneof![
        3 => literal_int().prop_map(|i| Head::Int(i, None)),
        1 => (literal_int(), "_[a-z]{0,4}").prop_map(|(i, s)| Head::Int(i, Some(s))),
        1 => (any::<u64>(), suffix()).prop_map(|(i, s)| Head::Uint(i, s)),
        1 => (literal_char(), 0u8..5, suffix()).prop_map(|(c, p, s)| Head::Char(c, p, s)),
        3 => id.clone().prop_map(Head::Id),
        1 => Just(Head::Ellipsis),
    ]
    .prop_map(|head| Val { head, trail: vec![] })
    .boxed();
    let sig = Just(Sig { abi: None, params: vec![], variadic: false, cv: 0, refs: 0, noexcept: None, ret: None }).boxed();
    let decl = prop_oneof![
        3 => (cv(), prop::bool::weighted(0.2)).prop_map(|(cv, restrict)| Decl::Ptr { cv, restrict }),
        2 => (1u8..3).prop_map(Decl::Ref),
        2 => (1u8..4).prop_map(Decl::Cv),
        1 => Just(Decl::Array(None)),
    ]
    .boxed();
    Level { ty, val, id, unq, sig, decl }
}
fn suffix() -> BoxedStrategy<Option<String>> {
    prop::option::weighted(0.25, "_[a-z]{0,4}").boxed()
}
fn literal_int() -> BoxedStrategy<i64> {
    prop_oneof![4 => -3i64..100, 1 => any::<i64>(), 1 => Just(i64::MAX), 1 => Just(0i64)].boxed()
}
fn literal_char() -> BoxedStrategy<char> {
    prop_oneof![
        4 => (b' '..=b'~').prop_map(|b| b as char),
        2 => select(vec!['\n', '\t', '\r', '\'', '"', '\\', '\0', '(', ')', '<', '>', ',']),
        1 => (1u8..32).prop_map(|b| b as char),
        1 => (127u8..=255).prop_map(|b| b as char),
        1 => (0x100u32..0xD000).prop_map(|u| char::from_u32(u).unwrap()),
        1 => (0xE000u32..0x11_0000).prop_map(|u| char::from_u32(u).unwrap()),
    ]
    .boxed()
}
fn next_level(l: &Level, w: usize) -> Level {
    let args = vec(l.val.clone(), 0..=w).boxed();
    let tpl = prop_oneof![
        12 => vec(prop_oneof![3 => l.ty.clone().prop_map(Arg::T), 2 => l.val.clone().prop_map(Arg::V)], 0..=w).prop_map(Tpl::List),
        1 => Just(Tpl::Void),
    ]
    .boxed();
    let sig = (
        prop::option::weighted(0.1, name()),
        vec(l.ty.clone(), 0..=w),
        prop::bool::weighted(0.15),
        cv(),
        prop_oneof![5 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
        prop::option::weighted(0.15, prop::option::weighted(0.5, l.val.clone().prop_map(Box::new))),
        prop::option::weighted(0.12, l.ty.clone().prop_map(Box::new)),
    )
        .prop_map(|(abi, params, variadic, cv, refs, noexcept, ret)| Sig { abi, params, variadic, cv, refs, noexcept, ret })
        .boxed();
    let unq = prop_oneof![
        8 => (prop::bool::weighted(0.08), name(), prop::option::weighted(0.4, tpl.clone())).prop_map(|(dtor, name, tpl)| Unq::Named { dtor, name, tpl }),
        1 => l.val.clone().prop_map(|v| Unq::Decltype(Box::new(v))),
        1 => (select(ARITH), prop::option::weighted(0.3, tpl.clone())).prop_map(|(op, tpl)| Unq::Arith { op: op.into(), tpl }),
        1 => (0u8..7, prop::option::weighted(0.3, tpl.clone())).prop_map(|(op, tpl)| Unq::Other { op, tpl }),
        1 => name().prop_map(Unq::Literal),
        1 => l.ty.clone().prop_map(|t| Unq::Conversion(Box::new(t))),
        1 => (path_strategy(), any::<u32>(), any::<u32>()).prop_map(|(path, line, col)| Unq::ClangLambda { path, line, col }),
        1 => (any::<bool>(), option::of(prop_oneof![select(vec!["namespace", "class", "struct", "union", "enum"]).prop_map(|s| s.to_string()), name()]), option::of((path_strategy(), 1u32..5000, 1u32..200)))
            .prop_map(|(unnamed, id, loc)| Unq::ClangAnon { unnamed, loc: if id.is_some() { loc } else { None }, id }),
        1 => (sig.clone(), any::<u32>()).prop_map(|(sig, n)| Unq::GnuLambda { sig: Box::new(sig), n }),
        1 => any::<u32>().prop_map(Unq::GnuUnnamed),
    ]
    .boxed();
    let scope = (unq.clone(), prop::option::weighted(0.2, sig.clone())).prop_map(|(id, sig)| Scope { id, sig }).boxed();
    let id = (prop::bool::weighted(0.1), prop_oneof![2 => Just(vec![]).boxed(), 2 => vec(scope.clone(), 1..=w.max(1)).boxed()], unq.clone())
        .prop_map(|(rooted, scopes, last)| Id { rooted, scopes, last })
        .boxed();
    let decl = prop_oneof![
        6 => leaf_level().decl,
        1 => (vec(scope.clone(), 1..=2), cv(), prop::bool::weighted(0.2)).prop_map(|(scopes, cv, restrict)| Decl::Member { scopes, cv, restrict }),
        1 => option::of(l.val.clone()).prop_map(Decl::Array),
        2 => sig.clone().prop_map(Decl::Func),
        1 => vec(l.decl.clone(), 1..=3).prop_map(Decl::Paren),
        1 => l.val.clone().prop_map(Decl::Vector),
    ]
    .boxed();
    let ty = (
        prop_oneof![12 => Just(vec![]).boxed(), 1 => vec(l.val.clone(), 1..=2).boxed()],
        cv(),
        prop_oneof![
            2 => (0u8..19).prop_map(Base::Legacy),
            7 => id.clone().prop_map(Base::Id),
            1 => any::<u32>().prop_map(Base::Auto),
        ],
        prop_oneof![1 => Just(vec![]).boxed(), 1 => vec(decl.clone(), 0..=w.min(3)).boxed()],
    )
        .prop_map(|(attr, cv, base, decl)| Ty { attr, cv, base, decl })
        .boxed();
    let bval = l.val.clone().prop_map(Box::new).boxed();
    let bty = l.ty.clone().prop_map(Box::new).boxed();
    let head = prop_oneof![
        3 => leaf_level().val.prop_map(|v| v.head),
        4 => id.clone().prop_map(Head::Id),
        1 => bval.clone().prop_map(Head::Paren),
        2 => (select(UNARY), bval.clone()).prop_map(|(o, v)| Head::Unary(o.into(), v)),
        1 => (bty.clone(), bval.clone()).prop_map(|(t, v)| Head::Cast(t, v)),
        1 => (any::<bool>(), prop::option::weighted(0.3, args.clone()), bty.clone(), option::of(args.clone())).prop_map(|(rooted, placement, ty, ctor)| Head::New { rooted, placement, ty, ctor }),
        1 => bty.clone().prop_map(Head::SizeOf),
        1 => bty.clone().prop_map(Head::DeclVal),
    ]
    .boxed();
    let trail = prop_oneof![
        2 => args.clone().prop_map(Trail::Call),
        1 => bval.clone().prop_map(Trail::Index),
        4 => (select(BINARY), bval.clone()).prop_map(|(o, v)| Trail::Binary(o.into(), v)),
        1 => (bval.clone(), bval.clone()).prop_map(|(a, b)| Trail::Ternary(a, b)),
        1 => unq.clone().prop_map(Trail::Member),
        1 => any::<bool>().prop_map(Trail::Postfix),
        1 => Just(Trail::Ellipsis),
    ]
    .boxed();
    let val = (head, prop_oneof![2 => Just(vec![]).boxed(), 3 => vec(trail, 0..=w.min(3)).boxed()]).prop_map(|(head, trail)| Val { head, trail }).boxed();
    Level { ty, val, id, unq, sig, decl }
}

/// Entities of some nesting depth, with up to `w` items per list
pub fn entity(depth: usize, w: usize) -> BoxedStrategy<Ty> {
    let mut l = leaf_level();
    let mut all = vec![(1, l.ty.clone())];
    for d in 0..depth {
        l = next_level(&l, if d + 1 == depth { w } else { w.min(2) });
        all.push((2 + d as u32, l.ty.clone()));
    }
    proptest::strategy::Union::new_weighted(all).prop_map(sanitize).boxed()
}

/// Entities which are nested very deep in one place
pub fn deep(max: usize) -> BoxedStrategy<Ty> {
    (entity(1, 2), proptest::collection::vec((0u8..8, name(), entity(0, 1), cv(), any::<bool>()), 8..=max))
        .prop_map(|(mut t, wraps)| {
            let list = |name: String, args: Vec<Ty>| Unq::Named { dtor: false, name, tpl: Some(Tpl::List(args.into_iter().map(Arg::T).collect())) };
            let plain = |cv: u8, id: Id, decl: Vec<Decl>| Ty { attr: vec![], cv, base: Base::Id(id), decl };
            let func = |inner: Ty, variadic: bool| {
                Decl::Func(Sig { abi: None, params: vec![inner], variadic, cv: 0, refs: 0, noexcept: None, ret: None })
            };
            for (how, name, other, cv, flag) in wraps {
                let id = |last: Unq| Id { rooted: false, scopes: vec![], last };
                t = match how {
                    0 | 1 => plain(cv, id(list(name, vec![t])), vec![]),
                    2 => plain(cv, id(list(name, vec![other, t])), vec![]),
                    3 => plain(cv, id(list(name, vec![t, other])), vec![Decl::Ptr { cv: 0, restrict: false }]),
                    // Function as an argument
                    4 => plain(0, id(list(name, vec![plain(0, id(Unq::Named { dtor: false, name: "r".into(), tpl: None }), vec![func(t, flag)])])), vec![]),
                    5 => plain(
                        0,
                        id(list(name, vec![plain(0, id(Unq::Named { dtor: false, name: "r".into(), tpl: None }), vec![Decl::Paren(vec![Decl::Ptr { cv: 0, restrict: false }]), func(t, flag)])])),
                        vec![],
                    ),
                    // Scope
                    6 => plain(
                        cv,
                        Id {
                            rooted: false,
                            scopes: vec![Scope { id: list(name, vec![t]), sig: None }],
                            last: Unq::Named { dtor: false, name: "type".into(), tpl: None },
                        },
                        vec![],
                    ),
                    _ => plain(cv, id(list(name, vec![t])), vec![Decl::Ref(1 + flag as u8)]),
                };
            }
            sanitize(t)
        })
        .boxed()
}

/// Near miss: the same entity with one of its innermost details changed
pub fn tweak(t: &Ty, which: usize, how: usize) -> Option<Ty> {
    use serde_json::Value;
    fn leaves(v: &mut Value, visit: &mut dyn FnMut(&mut Value)) {
        match v {
            Value::Array(a) => {
                a.iter_mut().for_each(|v| leaves(v, visit));
                // (removing or doubling an element is a change of the list)
                // (paths are not empty)
                if !a.is_empty() && !(a.len() == 1 && a[0].is_string()) {
                    visit(v)
                }
            }
            Value::Object(o) => o.values_mut().for_each(|v| leaves(v, visit)),
            _ => visit(v),
        }
    }
    let mut v = serde_json::to_value(t).ok()?;
    let mut n = 0;
    leaves(&mut v, &mut |_| n += 1);
    let mut i = 0;
    leaves(&mut v, &mut |v| {
        if i == which % n {
            *v = match &*v {
                Value::Number(n) => match (n.as_u64(), n.as_i64()) {
                    (Some(0), _) => 1.into(),
                    (Some(n), _) => (n - 1).into(),
                    (_, Some(n)) => (n + 1).into(),
                    _ => Value::Null,
                },
                Value::String(s) if how % 2 == 0 && s.len() == 1 && s.chars().all(|c| c.is_ascii_alphanumeric()) => {
                    Value::String(if s == "z" { "y" } else { "z" }.into())
                }
                Value::String(s) if s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') => {
                    if how % 4 == 1 { Value::Null } else { Value::String(format!("{s}q")) }
                }
                Value::Bool(b) => Value::Bool(!b),
                Value::Null => [Value::String("_q".into()), Value::Null, serde_json::json!({ "head": { "Int": [1, null] }, "trail": [] })][how % 3].clone(),
                Value::Array(a) => {
                    let mut a = a.clone();
                    let k = how % a.len();
                    if how % 2 == 0 {
                        a.remove(k);
                    } else {
                        a.insert(k, a[k].clone());
                    }
                    Value::Array(a)
                }
                other => other.clone(),
            };
        }
        i += 1;
    });
    serde_json::from_value(v).ok()
}
