L=[]
def M(props,file,old,new,note=""): L.append(dict(props=props,file=file,old=old,new=new,note=note))
T="clang-time-trace/src/"
M("T02 T03",T+"tree.rs","if end < self.last_end {","if end + 0.5 < self.last_end {","tolerance on order")
M("T02 T03",T+"tree.rs","if candidate.stat.end() <= start {","if candidate.stat.end() <= start + 1.0 {","tolerance on overlap")
M("T02 T03",T+"tree.rs","        self.last_end = end;\n","        if activity.duration() > 0.0 { self.last_end = end; }\n","instants do not count in order")
M("T02",T+"tree.rs","            first_related_idx = candidate.first_related_idx;\n            child_candidates = &mut next_candidates[..first_related_idx];","            first_related_idx = first_related_idx.min(candidate_idx);\n            let skip = candidate.first_related_idx;\n            child_candidates = &mut next_candidates[..skip];","all_children misses grandchildren of the first child")
M("T02",T+"tree.rs","children_duration += candidate.stat.duration();","children_duration += candidate.stat.duration().floor();","fractions lost")
M("T03",T+"lib.rs","                (Some(pid1), pid2) if pid1 == pid2 => Ok(()),","                (Some(pid1), pid2) if pid1 == pid2 => Ok(()),\n                (Some(1), _) => {\n                    *curr_pid = Some(proposed_pid);\n                    Ok(())\n                }","pid 1 then another")
M("T03",T+"lib.rs","                (Some(pid1), pid2) if pid1 == pid2 => Ok(()),","                (Some(pid1), pid2) if pid1 == pid2 || pid2 == 1 => Ok(()),","pid 1 after another")
M("T03",T+"lib.rs","if let Some(old) = global_stats.insert(name.clone(), stat) {\n","if let Some(old) = global_stats.insert(name.clone(), stat.clone()).filter(|old| *old != stat) {\n","identical duplicate statistics")
M("T03",T+"metadata.rs","&& ts == 0.0 && pid == Some(tid) => Ok(name)","&& ts == 0.0 && pid.map_or(true, |p| p == tid) => Ok(name)","thread without pid")
M("T03",T+"metadata.rs","if extra.is_empty() && cat.0.is_empty() && ts == 0.0 &&","if extra.is_empty() && ts == 0.0 &&","thread category")
M("T03",T+"metadata.rs","            && ((pid == 1 && tid == Some(0)) || tid == Some(pid)) =>","            && ((pid <= 1 && tid == Some(0)) || tid == Some(pid)) =>","pid 0 / negative with tid 0")
M("T03",T+"metadata.rs","            && ((pid == 1 && tid == Some(0)) || tid == Some(pid)) =>","            && ((pid == 1 && tid == Some(0)) || tid.map_or(true, |t| t == pid)) =>","no tid")
M("T03",T+"stats/activity/mod.rs","if (pid == 1 && tid == 0) || tid == pid =>","if tid == 0 || tid == pid =>","activities of thread 0 of any pid")
M("T01 T03",T+"lib.rs","if let Some(f64_value) = value.as_f64() {","if let Some(f64_value) = value.as_i64().map(|v| v as f64) {","fractional bot rejected")
M("T01 T03",T+"lib.rs","if let Some(f64_value) = value.as_f64() {","if let Some(f64_value) = value.as_f64().or(value.is_null().then_some(0.0)) {","null bot")
M("T01",T+"stats/global.rs",'if let Some(stripped) = name.strip_prefix("Total ") {','if let Some(stripped) = Some(name.trim_start_matches("Total ")).filter(|s| s.len() < name.len()) {',"Total Total")
M("T01",T+"stats/global.rs","count: args.count as usize,","count: args.count as u32 as usize,","count truncated")
M("T03",T+"stats/global.rs","} if tid != 0 && ts == 0.0 => {","} if tid != 0 => {","ts of stats")
M("T03",T+"stats/global.rs","} if tid != 0 && ts == 0.0 => {","} if ts == 0.0 => {","tid of stats")
M("T03",T+"stats/global.rs","            (_, None) => Err(ArgParseError::MissingKey(\"avg ms\")),","            (Some(count), None) => Ok(Self { count, _avg_ms: 0.0 }),","avg optional")
M("T03",T+"stats/global.rs","if let Some(c) = v.as_u64() {","if let Some(c) = v.as_f64().map(|c| c as u64) {","fractional count")
M("T03 T04",T+"stats/activity/mod.rs","""                        if let Some(kv) = args_iter.next() {
                            Err(ArgParseError::UnexpectedKeys(collect_bad_args(
                                args_iter, kv,
                            )))
                        } else {
                            Ok(s)
                        }""","""                        Ok(s)""","extra keys after detail")
M("T03 T04",T+"stats/activity/mod.rs","                        Err(ArgParseError::MissingKey(\"detail\")) => {\n                            Ok(RawActivityArgument::new(arg_type, None))","                        Err(ArgParseError::MissingKey(_) | ArgParseError::UnexpectedValue(..)) => {\n                            Ok(RawActivityArgument::new(arg_type, None))","bad value of optional argument")
M("T04 T03",T+"stats/activity/mod.rs","            if args.is_empty() {\n                Ok(())","            if args.is_empty() || args.contains_key(\"detail\") {\n                Ok(())","superfluous detail accepted")
M("T04",T+"stats/activity/argument.rs","if symbol.starts_with('(') && symbol.ends_with(')') {","if symbol.starts_with('(') {","only one side")
M("T04",T+"stats/activity/argument.rs","if symbol.starts_with('(') && symbol.ends_with(')') {","while symbol.starts_with('(') && symbol.ends_with(')') {","strips several")
M("T04",T+"stats/activity/argument.rs","""                        .no_return_type()
""","","return type")
M("T04",T+"stats/activity/argument.rs","""                        .hide_expression_literal_types()
""","","literal types")
M("T04",T+"stats/activity/argument.rs","""                "main" | "__clang_call_terminate" => parse_demangled(symbol),""","""                "main" => parse_demangled(symbol),""","call_terminate verbatim (kind changes)")
M("T04",T+"stats/activity/argument.rs","_ => ParsedSymbol::MaybeMangled(symbol),","_ => parse_demangled(symbol),","unmangled parsed as entities")
M("T04",T+"stats/activity/argument.rs","symbol.starts_with('_').then(|| {","symbol.starts_with(\"_Z\").then(|| {","___Z / _GLOBAL")
M("T04",T+"stats/activity/argument.rs","if &*detail == \"[module]\" {","if detail.starts_with(\"[module]\") {","[module]x")
M("T04",T+"stats/activity/argument.rs","if &*loop_name == \"<unnamed loop>\" {","if loop_name.ends_with(\"unnamed loop>\") {","loop names")
M("T04",T+"stats/activity/argument.rs","if detail.starts_with('(') && detail.ends_with(')') {\n            normalized","if detail.starts_with('(') && detail.ends_with(')') && !detail.starts_with(\"(_\") {\n            normalized","unknown in parens")
M("T04",T+"stats/activity/argument.rs","|| normalized_symbol_name.starts_with(\"__cxx_global_var_init\")","|| normalized_symbol_name == \"__cxx_global_var_init\"","unknown cxx_global.N")
M("T04",T+"stats/activity/mod.rs","                        Err(ArgParseError::MissingKey(\"detail\")) => Ok(RawActivityArgument::new(\n                    ActivityArgumentType::Nothing,","                        Err(_) => Ok(RawActivityArgument::new(\n                    ActivityArgumentType::Nothing,","")
M("T04",T+"stats/activity/mod.rs",'"LICMPass" => (LICMPass, UnnamedLoopOpt)','"LICMPass" => (LICMPass, UnnamedLoop)',"")
M("T04",T+"stats/activity/mod.rs",'"OptModule" => (OptModule, FilePathOrModule)','"OptModule" => (OptModule, String)',"")
M("S01",'src/trace.rs',".entry(activity_trace.activity().name().into())",".entry(activity_trace.activity().id().as_ref().into())","unknown activities merged")
M("S01 S02",'src/trace.rs',".filter(|a| duration(a) >= threshold)",".filter(|a| duration(a) > threshold)","strict threshold")
M("S01",'src/trace.rs',"            .then_with(|| n1.cmp(n2))","            .then_with(|| n2.cmp(n1))","tie order (equivalent)")
M("S01 S02",'src/trace.rs',"let root_duration = roots.map(|root| root.duration()).sum::<f64>();","let root_duration = roots.map(|root| root.end()).fold(0.0, f64::max);","norm by end")
S="src/ui/stdio.rs"
M("S01",S,"activity_type_breakdown.len() - idx,","activity_type_breakdown.len() - idx - 1,","")
M("S01",S,"        if duration * duration_norm < threshold {","        if (duration * duration_norm * 1e4).round() / 1e4 < threshold {","rounded share")
M("S02",S,"        if terminator.width() > child_cols.into() {","        if terminator.width() > max_cols.into() {","")
M("S02",S,"            child_cols,\n        )\n    };\n    tree =","            child_cols.min(max_cols / 2),\n        )\n    };\n    tree =","")
M("S03",S,"max_cols.saturating_sub(2).max(1),","max_cols,","flat too wide")
M("S03",S,"            let other_cols = ","            let other_cols = ","")
M("S03",S,"let other_cols = max_cols.saturating_sub(trailer.width() as u16);","let other_cols = max_cols.saturating_sub(trailer.len() as u16);","µ in bytes")
M("S01 S03",S,"let percent = duration * duration_norm * 100.0;","let percent = (duration * duration_norm * 100.0).min(99.99);","")
M("S03",S,"    if child_cols == 0 {","    if child_cols <= 1 {","last column unused")
M("S03",S,".map(|(width, _height)| width.min(args.max_cols))",".map(|(width, _height)| if args.max_cols == u16::MAX { width } else { args.max_cols })","")
L=[m for m in L if m["old"]!=m["new"]]
