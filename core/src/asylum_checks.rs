//! A01 (item and sequence interning) and A02 (path interning)

use asylum::{
    lasso::{Key, LargeSpur, MicroSpur, MiniSpur, Spur},
    path::{PathError, PathInterner, PathKey, PathResolver},
    sequence::{SequenceInterner, SequenceKey},
    Interner, InternerKey,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    ops::Range,
};
use vcommon::{ensure, ensure_eq, no_panic, sub, Case, CaseResult, Prop};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "A01",
            assumptions: vec!["keys are only used with the interner that produced them"],
            subs: vec![
                Box::new(sub(
                    "items",
                    "histories of item internings (small and large value domains, three key widths) against a map model; non-trivial: at least one value interned twice with another one in between",
                    (90_000, 400_000),
                    |_| (any::<u8>(), vec(item_strategy(), 0..400)),
                    |_, (kind, items), case| match kind % 3 {
                        0 => items_model::<MicroSpur>(items, case),
                        1 => items_model::<MiniSpur>(items, case),
                        _ => items_model::<Spur>(items, case),
                    },
                )),
                Box::new(sub(
                    "sequences",
                    "histories of slice internings, item-by-item builds with pops, abandoned builds and reads, over 5 key layouts, against a map model; non-trivial: a build is abandoned or hits an already known sequence, and something is interned afterwards",
                    (360_000, 2_000_000),
                    |_| (any::<u8>(), vec(seq_op(), 0..60)),
                    |_, (kind, ops), case| match kind % 6 {
                        0 => seq_model::<MicroSpur, 3>(ops, case),
                        1 => seq_model::<MiniSpur, 4>(ops, case),
                        2 => seq_model::<MiniSpur, 8>(ops, case),
                        3 => seq_model::<Spur, 8>(ops, case),
                        4 => seq_model::<Spur, 10>(ops, case),
                        _ => seq_model::<LargeSpur, 40>(ops, case),
                    },
                )),
                Box::new(sub(
                    "key-packing",
                    "packing of arbitrary (offset, length) ranges into sequence keys: refused or read back exactly, and accepted when both fit; non-trivial: accepted",
                    (1_200_000, 4_000_000),
                    |_| (any::<u8>(), bits(), bits(), any::<bool>(), any::<bool>()),
                    |_, &(kind, off, len, near_off, near_len), case| match kind % 8 {
                        0 => packing::<MicroSpur, 1>(off, len, near_off, near_len, case),
                        1 => packing::<MicroSpur, 4>(off, len, near_off, near_len, case),
                        2 => packing::<MiniSpur, 8>(off, len, near_off, near_len, case),
                        3 => packing::<MiniSpur, 0>(off, len, near_off, near_len, case),
                        4 => packing::<Spur, 8>(off, len, near_off, near_len, case),
                        5 => packing::<Spur, 10>(off, len, near_off, near_len, case),
                        6 => packing::<LargeSpur, 8>(off, len, near_off, near_len, case),
                        _ => packing::<LargeSpur, 40>(off, len, near_off, near_len, case),
                    },
                )),
            ],
        },
        Prop {
            id: "A02",
            assumptions: vec!["Unix path syntax"],
            subs: vec![Box::new(sub(
                "paths",
                "histories of path internings made of components, `.`, `..`, repeated separators, relative paths and unusual names, against a lexical normalisation model; non-trivial: an absolute path whose normal form differs from its text, after another path",
                (300_000, 1_000_000),
                |_| vec(path_text(), 1..25),
                |_, paths, case| path_model(paths, case),
            ))],
        },
    ]
}

fn item_strategy() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => (0u32..20).prop_map(|i| format!("i{i}")),
        2 => (0u32..400).prop_map(|i| format!("{i}")),
        1 => "[ab]{0,6}",
        1 => any::<String>(),
    ]
}

fn items_model<K: Key + Eq + std::hash::Hash + std::fmt::Debug>(items: &[String], case: &mut Case) -> CaseResult {
    let mut interner: Interner<String, K> = Interner::new();
    let mut model: HashMap<String, K> = HashMap::new();
    let mut by_key: HashMap<K, String> = HashMap::new();
    let mut capacity_hit = false;
    ensure!(interner.is_empty() && interner.len() == 0, "new interner is not empty");
    for (i, item) in items.iter().enumerate() {
        let key = match no_panic(|| interner.intern(item.clone())) {
            Ok(k) => k,
            Err(e) => {
                // Only acceptable when the key type cannot hold another key
                ensure!(
                    !model.contains_key(item) && K::try_from_usize(model.len()).is_none(),
                    "interning item {i} {item:?} panicked with room left: {e}"
                );
                capacity_hit = true;
                ensure_eq!(interner.len(), model.len(), "len after refusal");
                continue;
            }
        };
        case.nontrivial(model.len() > 1 && model.contains_key(item));
        match model.get(item) {
            Some(old) => ensure_eq!(key, *old, "key of re-interned {item:?}"),
            None => {
                ensure!(!by_key.contains_key(&key), "new item {item:?} got the key of {:?}", by_key[&key]);
                by_key.insert(key, item.clone());
                model.insert(item.clone(), key);
            }
        }
        ensure_eq!(interner.get(key), item, "read back of item {i}");
        ensure_eq!(interner.len(), model.len(), "len after item {i}");
        ensure!(!interner.is_empty(), "non-empty interner reports being empty");
    }
    let check_all = |get: &dyn Fn(K) -> String, what: &str| -> CaseResult {
        for (item, key) in &model {
            ensure_eq!(&get(*key), item, "{what}");
        }
        Ok(())
    };
    check_all(&|k| interner.get(k).clone(), "final read")?;
    let cloned = interner.clone();
    check_all(&|k| cloned.get(k).clone(), "read from clone")?;
    let fin = interner.finalize();
    check_all(&|k| fin.get(k).clone(), "read after finalize")?;
    case.label_if(capacity_hit, "capacity reached");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum SeqOp {
    /// Intern a slice
    Intern(Vec<u8>),
    /// Build: items pushed (Some) or popped (None), then commit or abandon
    Build(Vec<Option<u8>>, bool),
    /// Intern the prefix / suffix of a previous sequence
    Prefix(usize, usize, bool),
    /// Rebuild a previous sequence item by item
    Rebuild(usize),
    /// Sequence of a single repeated item with a given length (capacity tests)
    Long(u8, usize, bool),
}
fn seq_op() -> impl Strategy<Value = SeqOp> {
    let it = || prop_oneof![3 => 0u8..3, 1 => any::<u8>()];
    prop_oneof![
        4 => vec(it(), 0..12).prop_map(SeqOp::Intern),
        4 => (vec(prop_oneof![4 => it().prop_map(Some), 1 => Just(None)], 0..16), any::<bool>()).prop_map(|(v, c)| SeqOp::Build(v, c)),
        2 => (any::<usize>(), 0usize..12, any::<bool>()).prop_map(|(a, b, c)| SeqOp::Prefix(a, b, c)),
        2 => any::<usize>().prop_map(SeqOp::Rebuild),
        1 => (it(), prop_oneof![Just(7usize), Just(8), Just(15), Just(16), Just(255), Just(256), Just(1023), Just(1024), 0usize..300], any::<bool>()).prop_map(|(a, b, c)| SeqOp::Long(a, b, c)),
    ]
}

fn seq_model<I: Key + std::hash::Hash + std::fmt::Debug, const L: u32>(ops: &[SeqOp], case: &mut Case) -> CaseResult {
    type K<I, const L: u32> = SequenceKey<I, L>;
    let mut interner: SequenceInterner<u8, K<I, L>> = SequenceInterner::new();
    let mut model: BTreeMap<Vec<u8>, K<I, L>> = BTreeMap::new();
    let mut by_key: HashMap<K<I, L>, Vec<u8>> = HashMap::new();
    let mut order: Vec<Vec<u8>> = vec![];
    let mut stored = 0usize;
    let mut disturbed = false;
    for (i, op) in ops.iter().enumerate() {
        // Figure out the sequence of interest
        let (wanted, via_entry, commit) = match op {
            SeqOp::Intern(v) => (v.clone(), None, true),
            SeqOp::Build(steps, commit) => {
                let mut v = vec![];
                for s in steps {
                    match s {
                        Some(x) => v.push(*x),
                        None => {
                            v.pop();
                        }
                    }
                }
                (v, Some(steps.clone()), *commit)
            }
            SeqOp::Prefix(which, n, suffix) => {
                if order.is_empty() {
                    continue;
                }
                let base = &order[which % order.len()];
                let n = (*n).min(base.len());
                let v = if *suffix { base[base.len() - n..].to_vec() } else { base[..n].to_vec() };
                (v, None, true)
            }
            SeqOp::Rebuild(which) => {
                if order.is_empty() {
                    continue;
                }
                let base = order[which % order.len()].clone();
                let steps = base.iter().map(|x| Some(*x)).collect();
                (base, Some(steps), true)
            }
            SeqOp::Long(x, n, entry) => {
                let v = vec![*x; *n];
                let steps = entry.then(|| v.iter().map(|x| Some(*x)).collect::<Vec<_>>());
                (v, steps, true)
            }
        };
        let fits = wanted.len() < (1usize << L.min(40)) && K::<I, L>::try_from_impl_key(stored..stored + wanted.len()).is_some();
        let result = match &via_entry {
            None => no_panic(|| Some(interner.intern(&wanted))),
            Some(steps) => no_panic(|| -> Result<Option<K<I, L>>, String> {
                let mut len = 0usize;
                let mut shadow = vec![];
                let mut entry = interner.entry();
                for s in steps {
                    match s {
                        Some(x) => {
                            entry.push(*x);
                            shadow.push(*x);
                            len += 1;
                        }
                        None => {
                            let (got, want) = (entry.pop(), shadow.pop());
                            ensure_eq!(got, want, "pop");
                            len = len.saturating_sub(1);
                        }
                    }
                    ensure_eq!(entry.len(), len, "length of sequence under construction");
                    ensure_eq!(entry.is_empty(), len == 0, "emptiness of sequence under construction");
                }
                if commit {
                    Ok(Some(entry.intern()))
                } else {
                    drop(entry);
                    Ok(None)
                }
            })
            .and_then(|r| r),
        };
        match result {
            Err(e) => {
                ensure!(!fits, "operation {i} {op:?} failed although there is room: {e}");
                case.label("capacity reached");
                disturbed = true;
            }
            Ok(None) => {
                disturbed = true;
            }
            Ok(Some(key)) => {
                ensure_eq!(interner.get(key), &wanted[..], "read back right after operation {i}");
                case.nontrivial(disturbed);
                match model.get(&wanted) {
                    Some(old) => {
                        ensure_eq!(key, *old, "key of known sequence {wanted:?}");
                        disturbed |= via_entry.is_some();
                    }
                    None => {
                        ensure!(!by_key.contains_key(&key), "new sequence {wanted:?} got the key of {:?}", by_key[&key]);
                        ensure!(wanted.len() < 1usize << L.min(40), "sequence exceeding the length limit was accepted");
                        model.insert(wanted.clone(), key);
                        by_key.insert(key, wanted.clone());
                        stored += wanted.len();
                        order.push(wanted.clone());
                    }
                }
            }
        }
        ensure_eq!(interner.len(), model.len(), "number of sequences after operation {i} {op:?}");
        ensure_eq!(interner.is_empty(), model.is_empty(), "emptiness after operation {i}");
        ensure_eq!(interner.num_items(), stored, "number of stored items after operation {i} {op:?}");
        ensure_eq!(interner.max_sequence_len(), model.keys().map(|k| k.len()).max(), "longest sequence after operation {i}");
        for (seq, key) in &model {
            ensure_eq!(interner.get(*key), &seq[..], "read of older sequence after operation {i} {op:?}");
        }
        case.evals += 1;
    }
    let cloned = interner.clone();
    let fin = interner.finalize();
    for (seq, key) in &model {
        ensure_eq!(cloned.get(*key), &seq[..], "read from clone");
        ensure_eq!(fin.get(*key), &seq[..], "read after finalize");
    }
    Ok(())
}

/// Numbers with a random number of significant bits
fn bits() -> impl Strategy<Value = u64> {
    (0u32..64, any::<u64>()).prop_map(|(b, x)| x >> b)
}

fn packing<I: Key + std::fmt::Debug, const L: u32>(off: u64, len: u64, near_off: bool, near_len: bool, case: &mut Case) -> CaseResult {
    let bits = (std::mem::size_of::<I>() * 8) as u32;
    // Bring numbers close to their limits part of the time
    let max_len = (1u64 << L) - 1;
    let max_off = if bits - L >= 64 { u64::MAX } else { (1u64 << (bits - L)) - 1 };
    let near = |x: u64, max: u64| max.saturating_sub(2).saturating_add(x % 5);
    let off = if near_off { near(off, max_off) } else { off };
    let len = if near_len { near(len, max_len) } else { len };
    let Some(end) = off.checked_add(len) else { return Ok(()) };
    let range = off as usize..end as usize;
    let key = no_panic(|| <SequenceKey<I, L> as InternerKey>::try_from_impl_key(range.clone()))?;
    let fits = off <= max_off && len <= max_len;
    // The inner keys cannot hold their own maximal value
    let all_ones = off == max_off && len == max_len;
    match key {
        Some(key) => {
            let back: Range<usize> = key.into_impl_key();
            ensure_eq!(back, range, "unpacked range");
            ensure!(fits && !all_ones, "range {range:?} was accepted although it does not fit");
            case.nontrivial(true);
        }
        None => {
            ensure!(!fits || all_ones, "range {range:?} was refused although it fits");
            case.label("refused");
        }
    }
    Ok(())
}

fn path_text() -> impl Strategy<Value = String> {
    let comp = prop_oneof![
        6 => (0u8..6).prop_map(|i| format!("c{i}")),
        3 => Just("..".to_string()),
        2 => Just(".".to_string()),
        2 => Just(String::new()),
        1 => Just("...".to_string()),
        1 => Just("..a".to_string()),
        1 => Just(".hidden".to_string()),
        1 => "[a-z .\\\\:~é…中-]{1,6}",
    ];
    (
        prop_oneof![8 => Just("/"), 1 => Just("//"), 1 => Just(""), 1 => Just("./"), 1 => Just("../"), 1 => Just("///")],
        prop_oneof![12 => vec(comp.clone(), 0..10), 1 => vec(comp, 30..120)],
        any::<bool>(),
    )
        .prop_map(|(pre, comps, slash)| format!("{pre}{}{}", comps.join("/"), if slash { "/" } else { "" }))
}

fn normal_form(path: &str) -> Option<Vec<String>> {
    if !path.starts_with('/') {
        return None;
    }
    let mut out = vec!["/".to_string()];
    for c in path.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                if out.len() > 1 {
                    out.pop();
                }
            }
            c => out.push(c.to_string()),
        }
    }
    Some(out)
}

fn path_model(paths: &[String], case: &mut Case) -> CaseResult {
    let mut interner: PathInterner<Spur> = PathInterner::new();
    let mut model: BTreeMap<Vec<String>, PathKey> = BTreeMap::new();
    let mut comp_keys: BTreeMap<String, Spur> = BTreeMap::new();
    ensure!(interner.is_empty() && interner.len() == 0, "new interner is not empty");
    fn check<P: PathResolver<PathKey = PathKey, ComponentKey = Spur>>(
        paths: &P,
        key: PathKey,
        comps: &[String],
        comp_keys: &mut BTreeMap<String, Spur>,
    ) -> CaseResult {
        let view = paths.get(key);
        let got: Vec<String> = view.components().map(|c| c.value().to_string()).collect();
        ensure_eq!(got, comps, "components");
        let mut rev: Vec<String> = view.components().rev().map(|c| AsRef::<str>::as_ref(&c).to_string()).collect();
        rev.reverse();
        ensure_eq!(rev, comps, "reverse components");
        for c in view.components() {
            let old = *comp_keys.entry(c.value().to_string()).or_insert(c.key());
            ensure!(c.key() == old, "component {:?} has two keys", c.value());
        }
        let distinct: BTreeSet<usize> = comp_keys.values().map(|k| k.into_usize()).collect();
        ensure_eq!(distinct.len(), comp_keys.len(), "distinct component keys");
        let text = if comps.len() == 1 { "/".to_string() } else { format!("/{}", comps[1..].join("/")) };
        ensure_eq!(view.to_string(), text, "displayed path");
        ensure_eq!(view.to_boxed_path().to_str().unwrap_or("<not UTF-8>").to_string(), text, "boxed path");
        Ok(())
    }
    for (i, path) in paths.iter().enumerate() {
        let norm = normal_form(path);
        let before = (interner.len(), interner.num_components(), interner.num_unique_components(), interner.max_path_len());
        match (interner.intern(path), norm) {
            (Err(PathError::RelativePath(p)), None) => {
                ensure_eq!(p.to_str(), Some(path.as_str()), "path attached to the error");
                let after = (interner.len(), interner.num_components(), interner.num_unique_components(), interner.max_path_len());
                ensure_eq!(after, before, "state after rejecting {path:?}");
                case.label("relative path");
            }
            (Err(e), Some(_)) => vcommon::fail!("absolute path {path:?} was rejected: {e}"),
            (Ok(_), None) => vcommon::fail!("relative path {path:?} was accepted"),
            (Ok(key), Some(norm)) => {
                let text = if norm.len() == 1 { "/".to_string() } else { format!("/{}", norm[1..].join("/")) };
                case.nontrivial(i > 0 && text != *path);
                case.label_if(norm.len() == 1, "root");
                case.label_if(model.contains_key(&norm), "already interned");
                match model.get(&norm) {
                    Some(old) => ensure_eq!(key, *old, "key of known path {path:?}"),
                    None => {
                        ensure!(!model.values().any(|k| *k == key), "path {path:?} got the key of another path");
                        model.insert(norm.clone(), key);
                    }
                }
                check(&interner, key, &norm, &mut comp_keys)?;
            }
        }
        ensure_eq!(interner.len(), model.len(), "number of paths");
        ensure_eq!(interner.is_empty(), model.is_empty(), "emptiness");
        ensure_eq!(interner.num_components(), model.keys().map(|k| k.len()).sum::<usize>(), "number of stored components");
        ensure_eq!(interner.max_path_len(), model.keys().map(|k| k.len()).max(), "longest path");
        case.evals += 1;
    }
    // Two views are equal when their keys are
    for (a, ka) in &model {
        for (b, kb) in &model {
            ensure_eq!(interner.get(*ka) == interner.get(*kb), a == b, "view equality of {a:?} and {b:?}");
        }
        check(&interner, *ka, a, &mut comp_keys)?;
    }
    let fin = interner.finalize();
    for (a, ka) in &model {
        check(&fin, *ka, a, &mut comp_keys)?;
    }
    Ok(())
}
