P="src/ui/tui/"
M("U01 U02",P+"processing.rs","                parsed_arg_cache.clear();\n                description_cache.clear();\n","                description_cache.clear();\n","parsed args of the previous trace")
M("U01",P+"processing.rs","                parsed_arg_cache.clear();\n                description_cache.clear();\n                trace = match ClangTrace::from_file(path) {\n                    Ok(trace) => {\n","                trace = match ClangTrace::from_file(path) {\n                    Ok(trace) => {\n                        parsed_arg_cache.clear();\n                        if last_max_cols != 80 { description_cache.clear(); }\n","desc cache kept at 80 cols")
M("U01 U02",P+"processing.rs","                    last_max_cols = max_cols;\n","                    last_max_cols = last_max_cols.max(max_cols);\n","width max")
M("U01 U02",P+"processing.rs","if max_cols != last_max_cols {","if max_cols < last_max_cols || last_max_cols == 0 {","only narrower invalidates")
M("U01 U02",P+"processing.rs","has_children: activity_trace.direct_children().next().is_some(),","has_children: activity_trace.duration() > activity_trace.self_duration(),","zero-length children")
M("U02 U05",P+"processing.rs","                        callback(Ok(()));\n                        Some(trace)","                        callback(if trace.root_activities().next().is_none() { Err(ClangTraceLoadError::Io(std::io::ErrorKind::InvalidData.into())) } else { Ok(()) });\n                        Some(trace)","empty trace")
M("U02",P+"processing.rs","activity_list(trace.activity_trace(id).all_children()),","activity_list(trace.activity_trace(id).all_children().filter(|a| a.self_duration() > 0.0)),","flat list without zero self")
M("U02",P+"processing.rs","reply(&activities, activity_list(trace.all_activities()))","reply(&activities, activity_list(trace.all_activities().filter(|a| a.duration() > 0.0)))","flat root list without instants")
M("U01 U02",P+"processing.rs",'write!(output, "…").expect("IO to a buffer shouldn\'t fail");\n            false','write!(output, "…").expect("IO to a buffer shouldn\'t fail");\n            output.truncate(1);\n            output.clear();\n            false',"nothing instead of ellipsis")
# load
M("U02 U05",P+"trace/load.rs","                            state.display_config.reset_duration_display();\n","","display kept over traces")
M("U02 U05",P+"trace/load.rs","                            state.global_percent_norm = Some(global_percent_norm);\n                            state.display_config.reset_duration_display();\n","                            let norm = *state.global_percent_norm.get_or_insert(global_percent_norm);\n                            state.display_config.reset_duration_display();\n                            let global_percent_norm = if state.showing_full_build { norm } else { global_percent_norm };\n","norm of the first trace")
M("U03 U05 U02",P+"trace/load.rs","                        if canceled.load(Ordering::Relaxed) {","                        if canceled.load(Ordering::Relaxed) && result.is_ok() {","canceled failing load shows error")
M("U03 U05 U02",P+"trace/load.rs","                        if canceled.load(Ordering::Relaxed) {","                        if canceled.load(Ordering::Relaxed) && result.is_err() {","canceled load shows profile")
M("U05 U03 U02",P+"trace/load.rs","        state.no_escape = true;\n","","Esc while loading")
M("U05 U02 U03",P+"trace/load.rs","        state.no_escape = false;\n","        state.no_escape = state.showing_full_build;\n","no escape after load over a build")
M("U05 U02 U03",P+"trace/load.rs","    cursive.set_fps(state.old_fps.map(u32::from).unwrap_or(0));\n","","autorefresh stays")
M("U05 U02 U03",P+"trace/load.rs","            if cursive.screen().is_empty() {\n                cursive.quit();","            if cursive.screen().len() <= 1 {\n                cursive.quit();","abort quits over build profile")
M("U05 U02 U03",P+"trace/load.rs","            if cursive.screen().is_empty() {\n                cursive.quit();\n            } else {","            if cursive.screen().is_empty() {\n            } else {","abort leaves empty screen")
M("U05 U02 U03",P+"trace/load.rs","                with_state(cursive, |state| {\n                    state.processing_thread = ProcessingThread::start();\n                });\n","","processing thread not replaced")
M("U05 U02 U03",P+"trace/load.rs","    while cursive.screen().len() > old_layers {\n","    while cursive.screen().len() > old_layers.max(1) {\n","loading dialog stays for direct loads")
M("U02 U05",P+"trace/load.rs",'"<profile root>".into()','"<root>".into()',"root name in backtrace")
M("U02 U05",P+"trace/load.rs","                            state.global_percent_norm = Some(global_percent_norm);\n                            state.display_config.reset_duration_display();","                            if state.global_percent_norm.replace(global_percent_norm) != Some(global_percent_norm) { state.display_config.reset_duration_display(); }","same norm keeps display unit")
# measure
R=P+"trace/measure.rs"
M("U05 U03",R,"            .find(|entry| matches!(entry.input().canonicalize(), Ok(path) if path == abs_path))","                .find(|entry| entry.input() == abs_path.as_path())","links in database")
M("U05 U03",R,"    let entry = compilation_database.entry(&abs_path).or_else(|| {","    let entry = compilation_database.entry(rel_path).or_else(|| compilation_database.entry(&abs_path)).or_else(|| {","rel first (equivalent?)")
M("U05 U03",R,"            } else if freshness.exists() {","            } else {","load of a nonexistent trace")
M("U05 U03",R,"            } else if freshness.exists() {","            } else if !freshness.is_outdated_stub() {","nobuild")
M("U05 U03",R,"        command.current_dir(entry.current_dir()).arg(\"-ftime-trace\");","        command.arg(\"-ftime-trace\");","current dir")
M("U05 U03",R,"        if let Some(granularity) = time_trace_granularity {\n","        if let Some(granularity) = time_trace_granularity.filter(|g| *g > 0) {\n","granularity 0")
M("U05 U03",R,"    output.set_extension(\"json\");","    output = std::path::PathBuf::from(format!(\"{}.json\", output.display().to_string().trim_end_matches(\".o\")));","multi-dot / other extension")
M("U05 U03",R,"    let freshness = match entry.derived_freshness(&output) {","    let freshness = match compilation_database.profile_freshness(&output) {","freshness w.r.t. whole db")
M("U05 U03",R,"CreatePrompt::from_freshness(freshness, false)","CreatePrompt::from_freshness(freshness, true)","no maybe stale prompt for traces")
M("U03",R,"            if let Some(error) = backup.restore_or_delete() {\n                cursive.add_layer(Dialog::info(error));\n            }\n            return;","            std::mem::drop(backup);\n            return;","no restoration when clang cannot start")
M("U03 U05",R,"        let (output_path, backup_error) = match backup.cleanup() {","        let (output_path, backup_error) = match backup.cleanup() { ","noop")
M("U03",R,"                        callback(cb_sink, move |cursive| {\n                            cursive.add_layer(Dialog::info(error))\n                        });\n                        return;","                        std::mem::drop(error);\n                        return;","silent missing output")
M("U03",R,"        if !self.output.exists() {","        if !self.output.exists() && self.backup.exists() {","missing output without backup")
M("U03",R,"        if !self.output.exists() {","        if !self.output.exists() && !self.backup.exists() {","missing output with backup is lost")
M("U03",R,"        match std::fs::remove_file(&self.backup) {\n            Ok(()) => Ok((self.output, None)),","        match std::fs::metadata(&self.backup).map(|_| ()) {\n            Ok(()) => Ok((self.output, None)),","backup left behind")
M("U03",R,"        match std::fs::rename(&self.backup, &self.output)\n            .or_else(|_| std::fs::remove_file(&self.output))","        match std::fs::rename(&self.backup, &self.output)","partial output is not deleted without backup")
M("U03",R,"        match std::fs::rename(&self.backup, &self.output)\n            .or_else(|_| std::fs::remove_file(&self.output))","        match std::fs::remove_file(&self.output).and_then(|()| std::fs::rename(&self.backup, &self.output))","no restoration if no output")
M("U03",R,"        match std::fs::rename(&output, &backup) {","        match std::fs::copy(&output, &backup).map(|_| ()) {","copy instead of rename: stale output taken as new")
M("U03",R,"            Err(e) if e.kind() == io::ErrorKind::NotFound => {}\n            Err(other) => return Err(format!(\"Failed to back up previous build trace: {other}\")),","            Err(_) => {}","backup failure ignored")
M("U03",R,".stderr(Stdio::piped())\n            .spawn()",".stderr(Stdio::piped())\n            .env_remove(\"PWD\")\n            .spawn()","env (equivalent?)")
M("U03",R,"            .stdin(Stdio::null())\n","","stdin inherited")
M("U03",R,"            std::mem::drop(pipe.read_to_end(&mut data));","            let mut chunk = [0u8; 65536]; if let Ok(n) = pipe.read(&mut chunk) { data.extend_from_slice(&chunk[..n]); }\n            std::mem::forget(pipe);","reads only one chunk")
M("U03",R,"            std::mem::drop(pipe.read_to_end(&mut data));","            std::mem::drop((&mut pipe).take(1 << 16).read_to_end(&mut data));\n","closes pipe after 64 kB")
M("U03",R,"                    if self.canceled.load(Ordering::Relaxed) {\n                        atomic::fence(Ordering::Acquire);\n                        break wait_result;","                    if self.canceled.swap(false, Ordering::Relaxed) {\n                        atomic::fence(Ordering::Acquire);\n                        break wait_result;","equivalent swap")
M("U03",R,"            Ok(None) => match self.child.kill().and_then(|()| self.child.wait()) {\n                Ok(_status) => Ok(true),","            Ok(None) => match self.child.kill() {\n                Ok(_status) => Ok(true),","no wait")
M("U03",R,"            Ok(Some(status)) if status.success() => Ok(false),","            Ok(Some(status)) if status.code().unwrap_or(0) == 0 => Ok(false),","killed by a signal is success")
M("U03",R,"            Ok(Some(status)) if status.success() => Ok(false),","            Ok(Some(status)) if status.success() => Ok(self.canceled.load(Ordering::Acquire)),","late abort discards")
M("U03",R,"        self.cancel_trigger.cancel();\n        if let Some(thread) = self.thread.take() {\n            std::mem::drop(thread.join());\n        }","        self.cancel_trigger.cancel();","no join on quit")
M("U03",R,"        self.cancel_trigger.cancel();\n        if let Some(thread) = self.thread.take() {","        if let Some(thread) = self.thread.take() {","quit waits for clang to complete")
M("U03 U05",R,"        state.trace_measurement = None;\n        state.no_escape = false;","        state.trace_measurement = None;","no_escape stays after measurement")
M("U03 U05",R,"        state.trace_measurement = None;\n","","measurement kept (equivalent?)")
M("U03 U05",R,"        append_pipe(&mut error, stdout.is_empty(), \"stderr\", &stderr[..]);","        append_pipe(&mut error, true, \"stderr\", &stderr[..]);","wording")
M("U03 U05",R,"    if !stderr.is_empty() {\n        append_pipe","    if !stderr.is_empty() && stdout.is_empty() {\n        append_pipe","stderr not shown if stdout")
M("U03 U05",R,"String::from_utf8_lossy(stream_data),","std::str::from_utf8(stream_data).expect(\"UTF-8\"),","non utf8 output")
M("U03 U05",R,"        callback(cb_sink, move |cursive| end_measure(cursive, state));\n\n        // Handle success and failure\n        let error_message = match wait_result {","        let error_message = match wait_result {","screen stays")
# build
B=P+"build/"
M("U04",B+"measure.rs","            match std::fs::remove_file(&self.backup_path) {\n                Ok(()) => {}","            match std::fs::metadata(&self.backup_path).map(|_| ()) {\n                Ok(()) => {}","backup stays")
M("U04",B+"measure.rs","        std::mem::drop(self.measurement.take());\n        if","        if","restore before end")
M("U04",B+"measure.rs","        match std::fs::rename(backup_path, output_path)\n            .or_else(|_| std::fs::remove_file(output_path))","        match std::fs::rename(backup_path, output_path)","partial profile stays")
M("U04",B+"measure.rs","output_path.with_extension(\"bak\")","output_path.with_extension(\"csv\")","backup name same as other file")
M("U04",B+"measure.rs","                if result.is_ok() {\n                    success","                if !matches!(result, Err(MeasureError::Io(_))) {\n                    success","maybe nobuild")
M("U04",B+"measure.rs","            with_state(cursive, |state| {\n            state.no_escape = true;\n        });","            with_state(cursive, |state| {\n            state.no_escape = true;\n        });","")
M("U04",B+"measure.rs","            .button(\"Abort\", Cursive::quit),","            .button(\"Abort\", |c| { c.pop_layer(); }),","abort does not abort")
M("U04 U05",B+"measure.rs","        while cursive.screen().len() > layers_below_profile {\n            cursive.pop_layer();\n        }\n","","progress dialog stays")
M("U04 U05",B+"measure.rs","            state.no_escape = false;","            state.no_escape = true;","no escape stays")
M("U04",B+"measure.rs","            Some(Err(e)) => Some(format!(\"Failed to collect build profile: {e}\")),","            Some(Err(_)) => None,","silent failure")
M("U04",B+"measure.rs","        match std::fs::rename(output_path, &backup_path) {","        match std::fs::copy(output_path, &backup_path).map(|_| ()) {","copy instead of rename")
M("U05 U04",B+"mod.rs","        } else if !freshness.exists() {\n            // If the user does not want to create a profile and none exists,\n            // we have to stop there and terminate the program.\n            return None;\n        }","        }","declined without profile")
M("U05 U04",B+"mod.rs","let manually_specified = args.build_profile.is_some();","let manually_specified = false;","manual ignored")
M("U05 U04",B+"mod.rs","CreatePrompt::from_freshness(freshness, manually_specified)","CreatePrompt::from_freshness(freshness, manually_specified).filter(|_| !manually_specified || !freshness.exists())","manual outdated not prompted")
M("U05 U04",B+"mod.rs","            if !measure_profile(cursive, profile_path, compilation_database) {\n                return None;\n            }","            if !measure_profile(cursive, profile_path, compilation_database) && !freshness.exists() {\n                return None;\n            }","failed remeasure shows the old profile")
M("U05 U04 C01",B+"mod.rs","\"Did not find a clang version suitable for build profiling: {e}\"","\"Did not find a clang version suitable for build profiling\"","message")
M("U05",B+"display.rs","(Some(Err(x)), Some(Err(y))) => x.total_cmp(&y),\n","","NaN panics")
M("U05",B+"display.rs","let has_walltime = profile.iter().any(","let has_walltime = profile.iter().all(","all instead of any")
M("U05",B+"display.rs","self.max_rss_bytes() as f32 / 1e9","self.max_rss_bytes() as f32 / 1024.0 / 1024.0 / 1024.0","GiB")
M("U05",B+"display.rs","None => \"?\".to_owned(),","None => String::new(),","empty")
M("U05",B+"display.rs","ProfileColumn::MaxRSS => self.max_rss_bytes().cmp(&other.max_rss_bytes()),","ProfileColumn::MaxRSS => (self.max_rss_bytes() / 10_000_000).cmp(&(other.max_rss_bytes() / 10_000_000)),","coarse sort")
M("U05",B+"display.rs","ProfileColumn::RelPath(_cols) => self.rel_path().cmp(other.rel_path()),","ProfileColumn::RelPath(_cols) => self.rel_path().as_os_str().cmp(other.rel_path().as_os_str()),","byte order of paths")
M("U05",B+"display.rs","c.width(MAX_RSS_WIDTH).ordering(Ordering::Greater)","c.width(MAX_RSS_WIDTH).ordering(Ordering::Less)","ascending")
M("U05",B+"display.rs","\"{:.1}s\"","\"{:.0}s\"","rounded")
M("U05",B+"display.rs","                time.map(|dur| dur.as_secs_f32())","                time.map(|dur| dur.as_secs() as f32)","whole seconds")
M("U05",B+"display.rs","                        .rel_path()\n                        .into()","                        .rel_path()\n                        .with_extension(\"cpp\")\n                        .into()","wrong ext")
M("U05",B+"display.rs","        .max(1);","        .max(0);","narrow terminal panics")
M("U05",B+"display.rs","        non_file_width += WALL_TIME_WIDTH + 3;","        non_file_width += WALL_TIME_WIDTH;","width")
M("U05 U04",P+"create.rs","if age_mins != Some(0) && !manually_specified","if age_mins.map_or(false, |a| a > 0) && !manually_specified","future/unknown age")
M("U05 U04",P+"create.rs","if age_mins != Some(0) && !manually_specified","if age_mins.map_or(true, |a| a > 60) && !manually_specified","1 h")
M("U05 U04",P+"create.rs","            ProductFreshness::Outdated => Some(CreatePrompt::stale_build_profile()),","            ProductFreshness::Outdated => (!manually_specified).then(CreatePrompt::stale_build_profile),","manual outdated")
M("U05 U04",P+"create.rs","                if age_days > 1 {","                if age_days >= 1 {","1 days")
M("U05 U04",P+"create.rs","if age_days > 0 {","if age_days > 1 {","24h")
M("U05 U04",P+"create.rs","            default_means_create: false,\n","            default_means_create: true,\n","swapped")
# trace display
D=P+"trace/display.rs"
M("U02",D,"            *norm = parent_percent_norm;\n        }\n\n        // Generate","                            if kind == ProfileKind::Hierarchical { *norm = parent_percent_norm; }\n        }\n\n        // Generate","flat norm")
M("U02",D,"            *norm = profile_layer.parent_percent_norm;","            if profile_layer.kind == ProfileKind::Hierarchical { *norm = profile_layer.parent_percent_norm; }","unit switch below flat")
M("U02",D,"            *norm = parent_percent_norm;","            if kind == ProfileKind::Hierarchical { *norm = parent_percent_norm; }","flat norm on toggle")
M("U02",D,"sort_config.key = sort_config.key.into_flat();","sort_config.key = HierarchicalColumnName::SelfDuration;","flat always sorts by self")
M("U02",D,"            sort_config.key = sort_config.key.into_flat();\n","","flat sort by missing column")
M("U02",D,"        sort_config.order[sort_config.key as usize],","        Ordering::Greater,","order")
M("U02",D,"        state.display_config.sort_config.order[column_name as usize] = order;\n","","order not remembered")
M("U02",D,"        state.display_config.sort_config.key = column_name;\n","        if !matches!(column_name, HierarchicalColumnName::Description) { state.display_config.sort_config.key = column_name; }\n","description key not remembered")
M("U02",D,"let num_past_views = state.profile_stack.len() - 1;","let num_past_views = (state.profile_stack.len() - 1).min(1);","only the first view")
M("U02",D,"                ProfileKind::Flat => column_name = column_name.into_flat(),\n            }\n            let column","                ProfileKind::Flat => {}\n            }\n            let column","flat past view sort by total")
M("U02",D,"                ProfileKind::Hierarchical => {}\n                ProfileKind::Flat => column_name = column_name.into_flat(),","                ProfileKind::Hierarchical => {}\n                ProfileKind::Flat => return,","flat past views unsorted")
M("U02",D,"                cmp_duration(self.duration, other.duration)","                cmp_duration(self.duration.round(), other.duration.round())","µs rounding in sort")
M("U02",D,"            HierarchicalColumn::Description => self.description.cmp(&other.description),","            HierarchicalColumn::Description => self.description.trim_start_matches(['+', ' ']).cmp(other.description.trim_start_matches(['+', ' '])),","sort w/o plus")
M("U02",D,"format!(\"{:.2}%\", data * norm.into_inner())","format!(\"{:.2}%\", (data * norm.into_inner()).min(100.0))","over 100")
M("U02",D,"    terminal_width.saturating_sub(durations_scroll_width as u16)","    terminal_width - durations_scroll_width as u16","narrow terminal")
M("U02",D,"ProfileKind::Hierarchical => DURATION_WIDTH + 4,","ProfileKind::Hierarchical => DURATION_WIDTH + 3,","off by one width")
M("U02",D,"    if last_line.width() + 1 + HELP_TEXT.width() <= terminal_width as usize {","    if last_line.width() + HELP_TEXT.width() <= terminal_width as usize {","footer one col too wide")
M("U02",D,"    if last_line.width() + 1 + HELP_TEXT.width() <= terminal_width as usize {","    if last_line.len() + 1 + HELP_TEXT.width() <= terminal_width as usize {","footer bytes")
M("U02",D,"            ProfileKind::Flat => ProfileKind::Hierarchical,\n        };\n        let (old","            ProfileKind::Flat => ProfileKind::Flat,\n        };\n        let (old","no toggle back")
M("U02",D,"            layer.parent_percent_norm,\n                get_other","            layer.parent_percent_norm,\n                get_other","")
M("U02",D,"            super::percent_norm(activity_duration),","            super::percent_norm(activity_children.iter().map(|c| c.duration).sum()),","parent norm from children")
M("U02",D,"let stripped_description = activity.description.strip_prefix('+')?;","let stripped_description = activity.description.trim_start_matches('+').trim_start();","zoom childless")
M("U02",D,"            if activity_info.has_children {","            if activity_info.has_children && activity_info.self_duration < activity_info.duration {","plus missing for instant children")
M("U02",D,"            view.set_content(desc);\n                view.set_content_wrap(wrap);","            view.set_content(desc);","wrap not set")
M("U02",D,"                .describe_activity(activity, terminal_width)","                .describe_activity(activity, terminal_width.min(80))","noop")
M("U02",D,"    if let Some(selected_activity) = selected_activity {\n        update_description(cursive, selected_activity);\n    }","    if let Some(selected_activity) = selected_activity {\n        if kind == ProfileKind::Hierarchical { update_description(cursive, selected_activity); }\n    }","flat initial description missing")
M("U02",D,"            DurationDisplay::Percentage(_, PercentageReference::Parent) => DurationDisplay::Time,\n            DurationDisplay::Time =>","            DurationDisplay::Percentage(_, PercentageReference::Parent) => DurationDisplay::Time,\n            DurationDisplay::Time =>","")
M("U02",D,"    table.set_selected_row(0);\n\n    // Determine","    // Determine","no selection")
M("U02",D,"    // This shortcut is specific to profile views\n    if !is_profiling(cursive) {\n        return;\n    }\n","","u over load screen/ build (equivalent?)")
M("U02 U05",P+"init.rs","            if num_layers == state.profile_stack.len() + state.layers_below_profile {\n                state.profile_stack.pop();\n            }","            state.profile_stack.pop();","esc of dialog pops profile stack")
M("U02 U05",P+"init.rs","            if num_layers == state.profile_stack.len() + state.layers_below_profile {","            if num_layers == state.profile_stack.len() {","esc over build")
M("U02 U05",P+"init.rs","        while screen.len() > idx + 1 + layers_below_profile {","        while screen.len() > idx + 1 {","backtrace over build")
M("U02 U05",P+"init.rs","state.profile_stack.truncate(idx + 1)","state.profile_stack.truncate(idx.max(1))","backtrace truncation")
M("U02 U05",P+"init.rs","                .enumerate()\n                .rev()\n","                .enumerate()\n","order of backtrace")
M("U02 U05",P+"init.rs","                .find_layer_from_name(GlobalDialog.as_ref())\n                .is_none()","                .find_layer_from_name(GlobalDialog.as_ref())\n                .map_or(true, |_| true)","stacking dialogs")
M("U02 U05",P+"init.rs","    if num_layers > 1 {\n","    if num_layers > 0 {\n","esc pops the last")
M("U02 U05",P+"init.rs","            if state.no_escape {\n                return false;\n            }\n","","esc always")
M("U02 U05",P+"trace/mod.rs","X","X","")
# clang
M("C01","src/clang.rs","clang version (?<major_version>\\d+)\\.(?<minor_version>\\d+)","clang version (?<major_version>\\d)(?<minor_version>\\d*)","one digit")
M("C01","src/clang.rs","if major_version >= MIN_VERSION {","if major_version >= MIN_VERSION || version_line.contains(\"Apple\") {","apple")
M("C01","src/clang.rs","    let version_line = match stdout.lines().next() {","    let version_line = match stdout.lines().find(|l| l.contains(\"version\")) {","not the first line")
M("C01","src/clang.rs","const MIN_VERSION: usize = 9;","const MIN_VERSION: usize = 8;","8")
M("C01","src/clang.rs","String::from_utf8(clang_version_output.stdout)?","String::from_utf8_lossy(&clang_version_output.stdout).into_owned()","lossy")
M("C01","src/clang.rs","    if !clang_version_output.status.success() {","    if clang_version_output.status.code() == Some(1) {","only code 1")
M("C01","src/clang.rs","parse::<usize>()","parse::<u8>()","255")
