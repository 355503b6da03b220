//! Generator of clang time-traces: a model, and JSON texts of it.

use crate::cpp::{self, Noise};
use proptest::{collection::vec, option, prelude::*, sample::select, strategy::BoxedStrategy};
use serde::{Deserialize, Serialize};

/// What an activity takes as an argument
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Nothing,
    Str,
    Path,
    Entity,
    Symbol,
    SymbolOpt,
    Loop,
    LoopOpt,
}
use Kind::*;

/// Activities of clang, with what they take as an argument
pub const ACTIVITIES: &[(&str, Kind)] = &[
    ("AAManager", Symbol), ("ADCEPass", Symbol), ("AggressiveInstCombinePass", Symbol), ("AlignmentFromAssumptionsPass", Symbol),
    ("Annotation2MetadataPass", Path), ("AnnotationRemarksPass", Symbol), ("AssignmentTrackingPass", Path), ("Backend", Nothing),
    ("BDCEPass", Symbol), ("BlockFrequencyAnalysis", Symbol), ("BranchProbabilityAnalysis", Symbol), ("CalledValuePropagationPass", Path),
    ("CallGraphAnalysis", Path), ("CGProfilePass", Path), ("CGSCCToFunctionPassAdaptor", SymbolOpt), ("CodeGen Function", Entity),
    ("CodeGenPasses", Nothing), ("ConstantMergePass", Path), ("ConstraintEliminationPass", Symbol), ("CoroCleanupPass", Symbol),
    ("CoroEarlyPass", Symbol), ("CoroElidePass", Symbol), ("CoroSplitPass", Nothing), ("CorrelatedValuePropagationPass", Symbol),
    ("DeadArgumentEliminationPass", Path), ("DebugConstGlobalVariable", Entity), ("DebugFunction", Entity), ("DebugGlobalVariable", Entity),
    ("DebugType", Entity), ("DevirtSCCRepeatedPass", SymbolOpt), ("DivRemPairsPass", Symbol), ("DominatorTreeAnalysis", Symbol),
    ("DSEPass", Symbol), ("EarlyCSEPass", Symbol), ("EliminateAvailableExternallyPass", Path), ("ExecuteCompiler", Nothing),
    ("Float2IntPass", Symbol), ("ForceFunctionAttrsPass", Path), ("Frontend", Nothing), ("FunctionToLoopPassAdaptor", Symbol),
    ("GlobalDCEPass", Path), ("GlobalOptPass", Path), ("GlobalsAA", Path), ("GVNPass", Symbol), ("IndVarSimplifyPass", Loop),
    ("InferFunctionAttrsPass", Path), ("InjectTLIMappings", Symbol), ("InlinerPass", SymbolOpt),
    ("InnerAnalysisManagerProxy<CGSCCAnalysisManager, Module>", Path), ("InstantiateClass", Entity), ("InstantiateFunction", Entity),
    ("InstCombinePass", Symbol), ("InstSimplifyPass", Symbol), ("InvalidateAnalysisPass<llvm::AAManager>", Symbol),
    ("InvalidateAnalysisPass<llvm::ShouldNotRunFunctionPassesAnalysis>", Symbol), ("IPSCCPPass", Path), ("JumpThreadingPass", Symbol),
    ("LazyCallGraphAnalysis", Path), ("LCSSAPass", Symbol), ("LibCallsShrinkWrapPass", Symbol), ("LICMPass", LoopOpt), ("LoopAnalysis", Symbol),
    ("LoopDeletionPass", Loop), ("LoopDistributePass", Symbol), ("LoopFullUnrollPass", Loop), ("LoopIdiomRecognizePass", Loop),
    ("LoopInstSimplifyPass", Loop), ("LoopLoadEliminationPass", Symbol), ("LoopRotatePass", Loop), ("LoopSimplifyCFGPass", Loop),
    ("LoopSimplifyPass", Symbol), ("LoopSinkPass", Symbol), ("LoopUnrollPass", Symbol), ("LoopVectorizePass", Symbol),
    ("LowerConstantIntrinsicsPass", Symbol), ("LowerExpectIntrinsicPass", Symbol), ("MemCpyOptPass", Symbol), ("MemorySSAAnalysis", Symbol),
    ("MergedLoadStoreMotionPass", Symbol), ("ModuleInlinerWrapperPass", Path), ("ModuleToFunctionPassAdaptor", Path),
    ("ModuleToPostOrderCGSCCPassAdaptor", Path), ("OpenMPOptCGSCCPass", Nothing), ("OpenMPOptPass", Path), ("OptFunction", Symbol),
    ("Optimizer", Nothing), ("OptModule", Path), ("ParseClass", Entity), ("ParseTemplate", Entity), ("PassManager<llvm::Function>", SymbolOpt),
    ("PassManager<llvm::Loop, llvm::LoopAnalysisManager, llvm::LoopStandardAnalysisResults &, llvm::LPMUpdater &>", Nothing),
    ("PassManager<Function>", SymbolOpt), ("PassManager<LazyCallGraph::SCC, CGSCCAnalysisManager, LazyCallGraph &, CGSCCUpdateResult &>", Symbol),
    ("PassManager<Loop, LoopAnalysisManager, LoopStandardAnalysisResults &, LPMUpdater &>", Loop), ("PerformPendingInstantiations", Nothing),
    ("PerFunctionPasses", Nothing), ("PerModulePasses", Nothing), ("PostDominatorTreeAnalysis", Symbol), ("PostOrderFunctionAttrsPass", SymbolOpt),
    ("PromotePass", Symbol), ("ReassociatePass", Symbol), ("RecomputeGlobalsAAPass", Path), ("RelLookupTableConverterPass", Path),
    ("RequireAnalysisPass<llvm::GlobalsAA, llvm::Module>", Path),
    ("RequireAnalysisPass<llvm::OptimizationRemarkEmitterAnalysis, llvm::Function>", Symbol),
    ("RequireAnalysisPass<llvm::ProfileSummaryAnalysis, llvm::Module>", Path),
    ("RequireAnalysisPass<llvm::GlobalsAA, llvm::Module, llvm::AnalysisManager<Module>>", Path), ("ReversePostOrderFunctionAttrsPass", Path),
    ("RunLoopPass", Str), ("RunPass", Str), ("ScalarEvolutionAnalysis", Symbol), ("SCCPPass", Symbol), ("SimpleLoopUnswitchPass", Loop),
    ("SimplifyCFGPass", Symbol), ("SLPVectorizerPass", Symbol), ("Source", Path), ("SpeculativeExecutionPass", Symbol), ("SROAPass", Symbol),
    ("TailCallElimPass", Symbol), ("TargetIRAnalysis", Symbol), ("VectorCombinePass", Symbol), ("WarnMissedTransformationsPass", Symbol),
];
pub fn kind_of(name: &str) -> Option<Kind> {
    ACTIVITIES.iter().find(|(n, _)| *n == name).map(|(_, k)| *k)
}

/// Times are in thousandths of a microsecond
pub fn us(t: i64) -> f64 {
    t as f64 / 1000.0
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Act {
    pub name: String,
    pub detail: Option<String>,
    pub start: i64,
    pub dur: i64,
}
impl Act {
    pub fn end(&self) -> i64 {
        self.start + self.dur
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Stat {
    pub name: String,
    pub total: i64,
    pub count: u64,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Trace {
    /// 1 with thread 0 for old clang
    pub pid: i32,
    pub tid: i32,
    pub process: String,
    pub thread: Option<String>,
    /// Whole microseconds
    pub begin: Option<i64>,
    pub stats: Vec<Stat>,
    /// By increasing end time
    pub acts: Vec<Act>,
    /// Where the metadata and statistics go: 0 after the activities, as clang does, otherwise all over
    pub shuffle: u64,
    /// How the JSON is spelled: 0 plainly
    pub spelling: u64,
}

// ---------------------------------------------------------------- JSON text

/// JSON values with ordered keys and ready-made numbers
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
    Raw(String),
}
impl J {
    pub fn s(x: &str) -> J {
        J::Str(x.into())
    }
    pub fn n(x: impl ToString) -> J {
        J::Num(x.to_string())
    }
    pub fn obj(kv: Vec<(&str, J)>) -> J {
        J::Obj(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn get_mut(&mut self, k: &str) -> Option<&mut J> {
        match self {
            J::Obj(o) => o.iter_mut().find(|(x, _)| x == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|(x, _)| x == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let Some(x) = self.get_mut(k) {
            *x = v;
        } else if let J::Obj(o) = self {
            o.push((k.into(), v));
        }
    }
    pub fn remove(&mut self, k: &str) {
        if let J::Obj(o) = self {
            o.retain(|(x, _)| x != k);
        }
    }
    pub fn text(&self, seed: u64) -> String {
        let mut s = String::new();
        let mut n = (seed != 0).then(|| Noise::new(seed));
        self.write(&mut s, &mut n);
        s
    }
    fn write(&self, s: &mut String, n: &mut Option<Noise>) {
        fn ws(s: &mut String, n: &mut Option<Noise>) {
            if let Some(n) = n {
                match n.next(12) {
                    0 => s.push(' '),
                    1 => s.push('\n'),
                    2 => s.push_str("\t \r\n"),
                    _ => {}
                }
            }
        }
        match self {
            J::Num(x) | J::Raw(x) => s.push_str(x),
            J::Str(x) => json_str(x, s, n),
            J::Arr(v) => {
                s.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    ws(s, n);
                    x.write(s, n);
                    ws(s, n);
                }
                s.push(']');
            }
            J::Obj(o) => {
                let mut order: Vec<usize> = (0..o.len()).collect();
                if let Some(n) = n {
                    if n.next(3) > 0 {
                        for i in (1..order.len()).rev() {
                            order.swap(i, n.next(i as u64 + 1) as usize);
                        }
                    }
                }
                s.push('{');
                for (i, j) in order.into_iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    ws(s, n);
                    json_str(&o[j].0, s, n);
                    ws(s, n);
                    s.push(':');
                    ws(s, n);
                    o[j].1.write(s, n);
                    ws(s, n);
                }
                s.push('}');
            }
        }
    }
}
fn json_str(x: &str, s: &mut String, n: &mut Option<Noise>) {
    s.push('"');
    for c in x.chars() {
        let escape = n.as_mut().is_some_and(|n| n.next(40) == 0);
        match c {
            _ if escape => {
                let mut buf = [0; 2];
                for u in c.encode_utf16(&mut buf) {
                    if n.as_mut().unwrap().next(2) == 0 {
                        s.push_str(&format!("\\u{u:04x}"));
                    } else {
                        s.push_str(&format!("\\u{u:04X}"));
                    }
                }
            }
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            '\n' => s.push_str("\\n"),
            '\r' => s.push_str("\\r"),
            '\t' => s.push_str("\\t"),
            '/' if n.as_mut().is_some_and(|n| n.next(20) == 0) => s.push_str("\\/"),
            c if (c as u32) < 32 => s.push_str(&format!("\\u{:04x}", c as u32)),
            c => s.push(c),
        }
    }
    s.push('"');
}
/// Number of thousandths, in one of the ways to write it
pub fn json_num(t: i64, n: &mut Option<Noise>) -> String {
    let (sign, a) = if t < 0 { ("-", t.unsigned_abs()) } else { ("", t as u64) };
    let (q, r) = (a / 1000, a % 1000);
    let style = n.as_mut().map_or(0, |n| n.next(8));
    match style {
        1 => format!("{sign}{q}.{r:03}"),
        2 => format!("{sign}{a}e-3"),
        3 => format!("{sign}{q}.{r:03}E0"),
        4 if r == 0 && q % 10 == 0 => format!("{sign}{}e1", q / 10),
        5 if r == 0 => format!("{sign}{q}.0"),
        6 if a < 1_000_000_000 => format!("{sign}0.{a:09}e+6"),
        _ if r == 0 => format!("{sign}{q}"),
        _ => format!("{sign}{q}.{}", format!("{r:03}").trim_end_matches('0')),
    }
}
impl Trace {
    pub fn with_acts(acts: Vec<Act>) -> Trace {
        Trace { pid: 1234, tid: 1234, process: "clang".into(), thread: None, begin: None, stats: vec![], acts, shuffle: 0, spelling: 0 }
    }
    pub fn act_json(&self, a: &Act, n: &mut Option<Noise>) -> J {
        let mut e = vec![
            ("pid", J::n(self.pid)),
            ("tid", J::n(self.tid)),
            ("ph", J::s("X")),
            ("ts", J::Num(json_num(a.start, n))),
            ("dur", J::Num(json_num(a.dur, n))),
            ("name", J::s(&a.name)),
        ];
        match &a.detail {
            Some(d) => e.push(("args", J::obj(vec![("detail", J::s(d))]))),
            None => match n.as_mut().map_or(0, |n| n.next(4)) {
                0 | 1 => {}
                2 => e.push(("args", J::obj(vec![]))),
                _ => e.push(("args", J::Raw("null".into()))),
            },
        }
        J::obj(e)
    }
    pub fn stat_json(&self, i: usize, s: &Stat, n: &mut Option<Noise>) -> J {
        let avg = s.total as f64 / 1000.0 / 1000.0 / s.count.max(1) as f64;
        let tid = if self.pid == 1 { i as i32 + 1 } else { self.tid.wrapping_add(1 + i as i32).max(1) };
        J::obj(vec![
            ("pid", J::n(self.pid)),
            ("tid", J::n(tid)),
            ("ph", J::s("X")),
            ("ts", J::Num(json_num(0, n))),
            ("dur", J::Num(json_num(s.total, n))),
            ("name", J::s(&format!("Total {}", s.name))),
            ("args", J::obj(vec![("count", J::n(s.count)), ("avg ms", J::Num(format!("{}", avg.trunc())))])),
        ])
    }
    pub fn name_json(&self, what: &str, name: &str, tid: i32) -> J {
        J::obj(vec![
            ("cat", J::s("")),
            ("pid", J::n(self.pid)),
            ("tid", J::n(tid)),
            ("ts", J::n(0)),
            ("ph", J::s("M")),
            ("name", J::s(what)),
            ("args", J::obj(vec![("name", J::s(name))])),
        ])
    }
    /// The document, with the index of its activities
    pub fn json(&self) -> J {
        let mut n = (self.spelling != 0).then(|| Noise::new(self.spelling ^ 0x5eed));
        let acts: Vec<J> = self.acts.iter().map(|a| self.act_json(a, &mut n)).collect();
        let mut others: Vec<J> = self.stats.iter().enumerate().map(|(i, s)| self.stat_json(i, s, &mut n)).collect();
        others.push(self.name_json("process_name", &self.process, self.tid));
        if let Some(t) = &self.thread {
            others.push(self.name_json("thread_name", t, if self.pid == 1 && self.tid == 0 { 1 } else { self.tid }));
        }
        let mut events = acts;
        if self.shuffle == 0 {
            events.extend(others);
        } else {
            let mut r = Noise::new(self.shuffle);
            for o in others {
                let at = r.next(events.len() as u64 + 1) as usize;
                events.insert(at, o);
            }
        }
        let mut doc = vec![("traceEvents", J::Arr(events))];
        if let Some(b) = self.begin {
            doc.push(("beginningOfTime", J::Num(format!("{b}{}", if b.abs() < 1 << 49 && n.as_mut().is_some_and(|n| n.next(3) == 0) { ".0" } else { "" }))));
        }
        J::obj(doc)
    }
    pub fn text(&self) -> String {
        self.json().text(self.spelling)
    }
    /// Activities which contain others: the first of the following ones in
    /// the file which does not start later
    pub fn parents(&self) -> Vec<Option<usize>> {
        let a = &self.acts;
        (0..a.len()).map(|i| (i + 1..a.len()).find(|&j| a[j].start <= a[i].start)).collect()
    }
}

// ---------------------------------------------------------------- strategies

/// Shape of a forest, as gaps and own times
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Node {
    pub before: i64,
    pub after: i64,
    pub children: Vec<Node>,
}
fn gap(unit: i64) -> BoxedStrategy<i64> {
    prop_oneof![3 => Just(0i64), 4 => 0i64..4, 2 => 0i64..2000, 1 => 0i64..3_000_000].prop_map(move |x| x * unit).boxed()
}
pub fn node(depth: u32, size: u32, width: u32, unit: i64) -> BoxedStrategy<Node> {
    (gap(unit), gap(unit))
        .prop_map(|(before, after)| Node { before, after, children: vec![] })
        .prop_recursive(depth, size, width, move |n| {
            (gap(unit), gap(unit), vec(n, 0..=width as usize)).prop_map(|(before, after, children)| Node { before, after, children })
        })
        .boxed()
}
/// Time spans of the nodes in order of their end, starting at `t`
pub fn spans(nodes: &[Node], t: &mut i64, out: &mut Vec<(i64, i64)>) {
    for n in nodes {
        // The gap before comes before the node for siblings, inside for children
        *t += n.before;
        let start = *t;
        spans(&n.children, t, out);
        *t += n.after;
        out.push((start, *t - start));
    }
}

pub fn text_strategy() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[A-Za-z0-9 _.:<>&-]{0,20}",
        2 => vec(select(vec!['a', 'é', '日', '"', '\\', '/', '\n', '\t', '\u{1}', '\u{7f}', '\u{200d}', '👨', '\u{301}', '{', '}', '\u{2028}', '\u{ffff}', '\u{0}']), 0..10).prop_map(|v| v.into_iter().collect()),
        1 => vec(any::<char>(), 0..12).prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}
/// Absolute path, possibly not normalised
pub fn path() -> BoxedStrategy<String> {
    let comp = prop_oneof![
        6 => "[a-zA-Z0-9_.+-]{1,10}",
        1 => Just("..".to_string()),
        1 => Just(".".to_string()),
        1 => Just(String::new()),
        1 => "[a-z éü日(){}, ]{1,6}",
        2 => select(vec!["usr", "include", "c++", "bits", "build", "x86_64-linux-gnu", "main.cpp"]).prop_map(|s| s.to_string()),
        // What means something else on its own
        1 => select(vec!["[module]", "b[module]", "[module]c", "(a)", "main", "_Z1fv", "<unnamed loop>", "<stdin>"]).prop_map(|s| s.to_string()),
    ];
    (vec(comp, 0..8), prop::bool::weighted(0.1)).prop_map(|(v, slash)| format!("/{}{}", v.join("/"), if slash { "/" } else { "" })).boxed()
}
pub fn normalise(p: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c.into()),
        }
    }
    out
}
pub const PASSES: &[&str] = &[
    "X86 DAG->DAG Instruction Selection", "Loop Strength Reduction", "Expand Atomic instructions", "Expand memcmp() to load/stores",
    "Prologue/Epilogue Insertion & Frame Finalization", "Induction Variable Users", "Free MachineFunction", "Safe Stack instrumentation pass",
    "X86 EFLAGS copy lowering", "Machine InstCombiner", "CodeGen Prepare", "Two-Address instruction pass", "Function Alias Analysis Results",
];
/// Argument for an activity of some kind, valid for its kind
pub fn detail(k: Kind) -> BoxedStrategy<Option<String>> {
    let symbol = symbol_text().prop_map(Some).boxed();
    match k {
        Nothing => Just(None).boxed(),
        Str => prop_oneof![4 => select(PASSES).prop_map(|s| s.to_string()), 1 => text_strategy()].prop_map(Some).boxed(),
        Path => prop_oneof![1 => Just(Some("[module]".to_string())), 4 => path().prop_map(Some)].boxed(),
        Entity => (cpp::entity(2, 2), any::<u64>()).prop_map(|(e, n)| Some(e.spelled(n))).boxed(),
        Symbol => symbol,
        SymbolOpt => prop_oneof![1 => Just(None), 3 => symbol].boxed(),
        Loop => Just(Some("<unnamed loop>".to_string())).boxed(),
        LoopOpt => prop_oneof![1 => Just(None), 2 => Just(Some("<unnamed loop>".to_string()))].boxed(),
    }
}
/// Known activity with a valid argument
pub fn activity() -> BoxedStrategy<(String, Option<String>)> {
    select(ACTIVITIES).prop_flat_map(|(n, k)| detail(k).prop_map(move |d| (n.to_string(), d))).boxed()
}
/// Cheap activity
pub fn plain_activity() -> BoxedStrategy<(String, Option<String>)> {
    prop_oneof![
        4 => select(ACTIVITIES.iter().filter(|(_, k)| matches!(k, Nothing | LoopOpt | SymbolOpt)).map(|(n, _)| n.to_string()).collect::<Vec<_>>()).prop_map(|n| (n, None)),
        2 => select(vec!["/a/b.h", "/a/c.h", "/usr/include/x.hpp", "[module]"]).prop_map(|p| ("Source".to_string(), Some(p.to_string()))),
        2 => select(vec!["A", "std::vector<int>", "a::b::C<d>", "f(int)"]).prop_map(|p| ("ParseClass".to_string(), Some(p.to_string()))),
        1 => select(PASSES).prop_map(|p| ("RunPass".to_string(), Some(p.to_string()))),
    ]
    .boxed()
}
fn cpp_name_plain() -> BoxedStrategy<String> {
    prop_oneof![3 => "[a-z][a-z0-9_]{0,8}", 1 => "[A-Z][A-Za-z0-9]{0,12}"].prop_filter("keyword", |s: &String| !cpp::is_keyword(s)).boxed()
}

// ---- mangled names, with the text that they stand for

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum MTy {
    Builtin(u8),
    Ptr(Box<MTy>, bool),
    Ref(Box<MTy>, bool),
    Const(Box<MTy>),
    Named(Vec<MPart>),
    /// Number or truth value as a template argument, with its type
    Lit(u8, i64),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MPart {
    pub name: String,
    pub args: Option<Vec<MTy>>,
}
/// Demangled function or variable
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Mangled {
    pub parts: Vec<MPart>,
    /// Parameters, none for variables
    pub params: Option<Vec<MTy>>,
    pub parens: bool,
    /// Symbols of macOS have one underscore more
    #[serde(default)]
    pub mac: bool,
}
/// Types of numbers, and of truth values
const LIT: &[&str] = &["i", "j", "l", "m", "x", "y", "s", "t", "b"];
const BUILTIN: &[(&str, &str)] = &[
    ("s", "short"), ("t", "unsigned short"), ("i", "int"), ("j", "unsigned int"), ("l", "long"), ("m", "unsigned long"), ("x", "long long"),
    ("y", "unsigned long long"), ("n", "__int128"), ("o", "unsigned __int128"), ("c", "char"), ("a", "signed char"), ("h", "unsigned char"),
    ("f", "float"), ("d", "double"), ("e", "long double"), ("b", "bool"), ("w", "wchar_t"),
];
impl MTy {
    fn mangle(&self) -> String {
        match self {
            MTy::Builtin(i) => BUILTIN[*i as usize % BUILTIN.len()].0.into(),
            MTy::Ptr(t, _) => format!("P{}", t.mangle()),
            MTy::Ref(t, rv) => format!("{}{}", if *rv { "O" } else { "R" }, t.mangle()),
            MTy::Const(t) => format!("K{}", t.mangle()),
            MTy::Named(p) => mangle_name(p),
            MTy::Lit(t, _) => {
                let v = self.literal();
                format!("L{}{}{}E", LIT[*t as usize % LIT.len()], if v < 0 { "n" } else { "" }, v.unsigned_abs())
            }
        }
    }
    fn literal(&self) -> i64 {
        match self {
            MTy::Lit(t, v) => match LIT[*t as usize % LIT.len()] {
                "b" => v & 1,
                "j" | "m" | "y" | "t" => v & i64::MAX,
                _ => *v,
            },
            _ => unreachable!(),
        }
    }
    fn arg(&self) -> cpp::Arg {
        match self {
            MTy::Lit(t, _) if LIT[*t as usize % LIT.len()] == "b" => {
                cpp::Arg::T(cpp::Ty { attr: vec![], cv: 0, base: cpp::Base::Id(ident(["false", "true"][self.literal() as usize])), decl: vec![] })
            }
            MTy::Lit(..) => cpp::Arg::V(cpp::Val { head: cpp::Head::Int(self.literal(), None), trail: vec![] }),
            t => cpp::Arg::T(t.ty()),
        }
    }
    /// Same in the generator of entities
    fn ty(&self) -> cpp::Ty {
        match self {
            MTy::Builtin(i) => {
                let text = BUILTIN[*i as usize % BUILTIN.len()].1;
                let base = match cpp::LEGACY.iter().position(|l| *l == text) {
                    Some(i) => cpp::Base::Legacy(i as u8),
                    None => cpp::Base::Id(ident(text)),
                };
                cpp::Ty { attr: vec![], cv: 0, base, decl: vec![] }
            }
            MTy::Ptr(t, _) => {
                let mut t = t.ty();
                t.decl.push(cpp::Decl::Ptr { cv: 0, restrict: false });
                t
            }
            MTy::Ref(t, rv) => {
                let mut t = t.ty();
                t.decl.push(cpp::Decl::Ref(1 + *rv as u8));
                t
            }
            MTy::Const(t) => {
                let mut t = t.ty();
                match t.decl.last_mut() {
                    Some(cpp::Decl::Ptr { cv, .. }) => *cv = 1,
                    _ => t.decl.push(cpp::Decl::Cv(1)),
                }
                t
            }
            MTy::Named(p) => cpp::Ty { attr: vec![], cv: 0, base: cpp::Base::Id(id_of(p)), decl: vec![] },
            MTy::Lit(..) => unreachable!("not a type"),
        }
    }
}
fn ident(s: &str) -> cpp::Id {
    cpp::Id { rooted: false, scopes: vec![], last: cpp::Unq::Named { dtor: false, name: s.into(), tpl: None } }
}
fn unq(p: &MPart) -> cpp::Unq {
    let tpl = p.args.as_ref().map(|a| cpp::Tpl::List(a.iter().map(|t| t.arg()).collect()));
    cpp::Unq::Named { dtor: false, name: p.name.clone(), tpl }
}
fn id_of(p: &[MPart]) -> cpp::Id {
    let (last, scopes) = p.split_last().unwrap();
    cpp::Id { rooted: false, scopes: scopes.iter().map(|s| cpp::Scope { id: unq(s), sig: None }).collect(), last: unq(last) }
}
fn mangle_part(p: &MPart) -> String {
    let args = p.args.as_ref().map(|a| format!("I{}E", a.iter().map(|t| t.mangle()).collect::<String>())).unwrap_or_default();
    format!("{}{}{args}", p.name.len(), p.name)
}
fn mangle_name(p: &[MPart]) -> String {
    let body: String = p.iter().map(mangle_part).collect();
    if p.len() == 1 {
        body
    } else {
        format!("N{body}E")
    }
}
impl Mangled {
    pub fn symbol(&self) -> String {
        let name = mangle_name(&self.parts);
        let s = match &self.params {
            None => format!("_Z{name}"),
            Some(p) => {
                // Instances of templates mention their return type
                let ret = if self.parts.last().unwrap().args.is_some() { "v" } else { "" };
                let p = if p.is_empty() { "v".into() } else { p.iter().map(|t| t.mangle()).collect::<String>() };
                format!("_Z{name}{ret}{p}")
            }
        };
        let s = format!("{}{s}", if self.mac { "_" } else { "" });
        if self.parens {
            format!("({s})")
        } else {
            s
        }
    }
    pub fn canonical(&self) -> String {
        let decl = match &self.params {
            None => vec![],
            Some(p) => vec![cpp::Decl::Func(cpp::Sig {
                abi: None,
                params: p.iter().map(|t| t.ty()).collect(),
                variadic: false,
                cv: 0,
                refs: 0,
                noexcept: None,
                ret: None,
            })],
        };
        cpp::Ty { attr: vec![], cv: 0, base: cpp::Base::Id(id_of(&self.parts)), decl }.canonical()
    }
}
fn mty() -> BoxedStrategy<MTy> {
    let leaf = prop_oneof![
        3 => any::<u8>().prop_map(MTy::Builtin),
        2 => vec(cpp_name_plain(), 1..3).prop_map(|v| MTy::Named(v.into_iter().map(|name| MPart { name, args: None }).collect())),
    ];
    leaf.prop_recursive(3, 8, 3, |t| {
        prop_oneof![
            2 => t.clone().prop_map(|t| MTy::Ptr(Box::new(t), false)),
            1 => t.clone().prop_map(|t| match t { MTy::Const(_) => t, t => MTy::Const(Box::new(t)) }),
            2 => vec((cpp_name_plain(), option::of(vec(targ(t), 1..3))), 1..3)
                .prop_map(|v| MTy::Named(v.into_iter().map(|(name, args)| MPart { name, args }).collect())),
        ]
    })
    .boxed()
}
/// Argument of a template
fn targ(t: impl Strategy<Value = MTy> + 'static) -> BoxedStrategy<MTy> {
    prop_oneof![4 => t, 1 => (any::<u8>(), prop_oneof![4 => -5i64..200, 1 => -i64::MAX..=i64::MAX]).prop_map(|(t, v)| MTy::Lit(t, v))].boxed()
}
fn mparam() -> BoxedStrategy<MTy> {
    (mty(), 0u8..4)
        .prop_map(|(t, r)| match r {
            0 => MTy::Ref(Box::new(t), false),
            1 => MTy::Ref(Box::new(t), true),
            // Top-level const is not part of signatures
            _ => match t {
                MTy::Const(t) => *t,
                t => t,
            },
        })
        .boxed()
}
pub fn mangled() -> BoxedStrategy<Mangled> {
    (vec((cpp_name_plain(), prop::option::weighted(0.3, vec(targ(mty()), 1..3))), 1..4), prop::option::weighted(0.85, vec(mparam(), 0..4)), prop::bool::weighted(0.3), prop::bool::weighted(0.1))
        .prop_map(|(p, params, parens, mac)| {
            let mut parts: Vec<MPart> = p.into_iter().map(|(name, args)| MPart { name, args }).collect();
            if params.is_none() {
                // Variable templates also mention their type: keep out of this
                parts.last_mut().unwrap().args = None;
            }
            Mangled { parts, params, parens, mac }
        })
        .boxed()
}
pub fn unmangled_symbol() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-zA-Z_][a-zA-Z0-9_.]{0,12}".prop_filter("mangled", |s: &String| !s.trim_start_matches('_').starts_with('Z') && !s.starts_with("_GLOBAL_") && s != "main"),
        1 => "[a-z]".prop_map(|s| s),
        1 => (0u32..100).prop_map(|n| format!("__cxx_global_var_init.{n}")),
        1 => "[a-zA-Z0-9_]{1,10}\\.(cpp|cc)".prop_map(|f| format!("_GLOBAL__sub_I_{f}")),
    ]
    .boxed()
}
pub fn symbol_text() -> BoxedStrategy<String> {
    prop_oneof![
        5 => mangled().prop_map(|m| m.symbol()),
        2 => unmangled_symbol(),
        1 => Just("main".to_string()),
        1 => Just("__clang_call_terminate".to_string()),
        1 => Just("(main)".to_string()),
    ]
    .boxed()
}

fn stat_name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(ACTIVITIES).prop_map(|a| a.0.to_string()),
        4 => text_strategy(),
        1 => select(ACTIVITIES).prop_map(|a| format!("Total {}", a.0)),
        1 => select(vec!["Total ", "Total", "Total Total ", "", " ", "Totals"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}

#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub depth: u32,
    pub size: u32,
    pub width: u32,
    pub roots: usize,
    pub rich: bool,
}
/// Well-formed trace
pub fn trace(shape: Shape) -> BoxedStrategy<Trace> {
    // Quarters of microseconds, so that additions are exact, or whole ones as in clang
    let forest = select(vec![250i64, 1000]).prop_flat_map(move |u| vec(node(shape.depth, shape.size, shape.width, u), 0..=shape.roots));
    let act = if shape.rich { activity() } else { plain_activity() };
    (
        forest,
        prop_oneof![1 => (5i64..20).prop_map(|x| x * 250), 2 => (2i64..100_000).prop_map(|x| x * 1000)],
        vec(act, 1..=24),
        any::<u64>(),
        prop_oneof![1 => Just((1, 0)), 4 => (2i32..i32::MAX / 2).prop_map(|p| (p, p))],
        (text_strategy(), option::of(text_strategy()), option::of(prop_oneof![1 => 0i64..2_000_000_000_000, 2 => 1_500_000_000_000_000i64..2_000_000_000_000_000, 1 => 0i64..4_000_000_000_000_000, 1 => -4_000_000_000_000_000i64..0])),
        vec((stat_name(), 0i64..1_000_000_000_000, prop_oneof![6 => 1u64..1_000_000, 1 => 1u64..1 << 48, 1 => (1u64 << 32)..1 << 34]), 0..6),
        (prop_oneof![1 => Just(0u64), 2 => any::<u64>()], prop_oneof![1 => Just(0u64), 3 => any::<u64>()]),
    )
        .prop_map(|(forest, t0, names, pick, (pid, tid), (process, thread, begin), stats, (shuffle, spelling))| {
            let mut sp = vec![];
            let mut t = t0;
            spans(&forest, &mut t, &mut sp);
            let mut n = Noise::new(pick | 1);
            let acts = sp
                .into_iter()
                .map(|(start, dur)| {
                    let (name, detail) = names[n.next(names.len() as u64) as usize].clone();
                    Act { name, detail, start, dur }
                })
                .collect();
            let mut seen = std::collections::HashSet::new();
            let stats = stats.into_iter().filter(|s| seen.insert(s.0.clone())).map(|(name, total, count)| Stat { name, total, count }).collect();
            // Names of threads only exist since clang reports real pids
            let thread = if pid == 1 { None } else { thread };
            Trace { pid, tid, process, thread, begin, stats, acts, shuffle, spelling }
        })
        .boxed()
}
