W="cmakeperf/src/measure/worker.rs"; MM="cmakeperf/src/measure/main.rs"; MO="cmakeperf/src/measure/mod.rs"; C="cmakeperf/src/commands.rs"; O="cmakeperf/src/output.rs"
M("B04",W,"max_rss_bytes = max_rss_bytes.max(tree.memory(&system));","max_rss_bytes = max_rss_bytes.max(tree.processes(&system).map(|p| p.memory()).max().unwrap_or(0));","largest process instead of sum")
M("B04",W,"            std::mem::swap(&mut self.parents, &mut self.children);","            std::mem::swap(&mut self.parents, &mut self.children);\n            if self.tree.len() > 2 { self.parents.clear(); }","depth limited")
M("B04",W,"    let wall_time = start.map(|start| start.elapsed());\n\n    // Decide","    // Decide","placeholder")
M("B04",W,".and_then(|workdir| pathdiff::diff_paths(job.input(), workdir))",".and_then(|workdir| job.input().strip_prefix(workdir).ok().map(|p| p.to_owned()))","files outside of the cwd stay absolute")
M("B04",W,"        .current_dir(job.current_dir())\n","","cwd of job")
M("B04",W,".stdin(Stdio::null())",".stdin(Stdio::inherit())","stdin")
M("B04",W,"            stderr: read_stdpipe(process.stderr.take()),","            stderr: { let p = process.stderr.take(); std::thread::spawn(move || { let mut b = vec![0; 1 << 17]; let mut p = p.unwrap(); let mut n = 0; while n < b.len() { match p.read(&mut b[n..]) { Ok(k) if k > 0 => n += k, _ => break } } b.truncate(n); std::mem::forget(p); b }) },","reads only 128 KiB of stderr and leaves it open")
M("B05",W,"    let system =\n        System::new_with_specifics(RefreshKind::new().with_processes(ProcessRefreshKind::new()));\n    tree.refresh(&system);\n    tree.kill(&system);","    let system =\n        System::new_with_specifics(RefreshKind::new().with_processes(ProcessRefreshKind::new()));\n    tree.kill(&system);","kill with stale tree")
M("B05",W,"    // Make sure that the job does terminate\n    if let Ok(Some(_status)) = process.wait_timeout(KILL_TIMEOUT) {\n        return;\n    }\n","    // Make sure that the job does terminate\n    if process.wait().is_ok() {\n        return;\n    }\n","waits for ever for a job that ignores SIGTERM")
M("B05",W,"        for process in self.processes(system) {\n            global_result","        for process in self.processes(system).take(2) {\n            global_result","kills two processes")
M("B05",W,"            if failed {\n                break;\n            }","            if failed && measure_time {\n                break;\n            }","goes on after failure")
M("B05",W,"        if let Err(MustStop) = monitor_client.switch_job() {\n        return Err(JobError::Killed(job));\n    }","","x")
M("B05",W,"    if let Err(MustStop) = monitor_client.switch_job() {\n        return Err(JobError::Killed(job));\n    }","    let _ = monitor_client.switch_job();","job starts although stopped")
M("B05 B04",W,"    if !exit_status.success() {","    if exit_status.code().is_some_and(|c| c != 0 && c != 256 - 1) {","signals and 255 are successes")
M("B05",W,"        Err(e) => Err(JobError::SpawnFailed(e)),","        Err(e) => { log::error!(\"{e}\"); Command::new(\"true\").stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(JobError::SpawnFailed) }","spawn failure ignored")
M("B05",W,"                if let Err(MustStop) = monitor_client.keep_job() {\n                    kill_job(&mut process, tree);\n                    return Err(JobError::Killed(job));\n                }","                if let Err(MustStop) = monitor_client.keep_job() {\n                    let _ = process.kill();\n                    let _ = process.wait();\n                    return Err(JobError::Killed(job));\n                }","descendants survive")
M("B04 B05",MM,"                        writer.serialize(unit_profile)?;\n                        step_done();","                        step_done();\n                        writer.serialize(unit_profile)?;","progress first (equivalent-ish)")
M("B05",MM,"            writer.flush()?;\n            Ok(())","            let _ = writer.flush();\n            Ok(())","write failure ignored")
M("B05",MM,"                        writer.serialize(unit_profile)?;","                        let _ = writer.serialize(unit_profile);","write failure ignored 2")
M("B05",MM,"                    monitor_server.stop_all();\n                    return Err(MeasureError::Killed);","                    return Err(MeasureError::Killed);","drop does it (equivalent)")
M("B04",MM,"    concurrency.map(usize::from).unwrap_or(if measure_time {\n        1\n    } else {","    concurrency.map(usize::from).unwrap_or(if !measure_time {\n        1\n    } else {","default concurrency")
M("B04",MM,"    concurrency.map(usize::from)","    concurrency.map(|c| usize::from(c).min(64))","at most 64 workers")
M("B04",MM,"        atomic_wait::wake_one(&self.queue.futex);","","lost wake-up on requeue")
M("B04",MM,"                .min_by_key(|&idx|","                .max_by_key(|&idx|","oldest worker killed")
M("B04",MM,"            self.oom_margin =\n                self.oom_margin / old_assumed_threads as u64 * new_assumed_threads as u64;","            let _ = new_assumed_threads;","margin stays: kills everyone")
M("B04 B05",MM,"        self.queue.global.push(job);","        if self.queue.global.len() < 1000 { self.queue.global.push(job); }","x")
M("B04",MO,".chain((trailing_bits != 0).then_some(AtomicUsize::new((1 << trailing_bits) - 1)))",".chain((trailing_bits != 0).then_some(AtomicUsize::new((1 << trailing_bits) - 1)).filter(|_| len < 128))","more than 128 workers")
M("B05",MO,"        self.kill.store(true, Ordering::Release);\n        if let Some(main_thread) = self.main_thread.take() {\n            std::mem::drop(main_thread.join());\n        }","        self.kill.store(true, Ordering::Release);\n        let _ = self.main_thread.take();","drop does not wait")
M("B05",MM,"    fn drop(&mut self) {\n        self.stop_all();\n    }","    fn drop(&mut self) {}","after a failure others are not stopped")
M("B05",MM,"        for word in &self.0 .0 {\n            word.store(0, Ordering::Relaxed);\n        }","        for word in self.0 .0.iter().take(1) {\n            word.store(0, Ordering::Relaxed);\n        }","only 64 workers stopped")
M("B01",C,"        // If CMake gives us the output path, use it\n        if let Some(out) = self.output.as_ref() {\n            return Some(out.to_path_buf());","        // If CMake gives us the output path, use it\n        if let Some(out) = self.output.as_ref().filter(|o| o.is_absolute()) {\n            return Some(out.to_path_buf());","relative explicit outputs")
M("B01",C,"self.args().skip_while(|arg| arg.as_ref() != \"-o\").nth(1)?","self.full_args().skip_while(|arg| arg.as_ref() != \"-o\").nth(1)?","program named -o")
M("B01",C,"        if let Some(rel_path) = rel_output.parent() {\n            result.push(rel_path);\n        }","        if let Some(rel_path) = rel_output.parent().filter(|p| p.is_relative()) {\n            result.push(rel_path);\n        }","absolute -o")
M("B01",C,"        Shlex::new(self.raw_command())","        self.raw_command().split_whitespace().map(|s| s.replace('\\\\', \"\"))","naive splitting")
M("B01",C,"#[serde(deny_unknown_fields)]\npub struct DatabaseEntry","pub struct DatabaseEntry","unknown fields (arguments)")
M("B02",C,"        if product_mtime < Path::new(Self::location()).metadata()?.modified()? {","        if Path::new(Self::location()).metadata().and_then(|m| m.modified()).is_ok_and(|t| product_mtime < t) {","missing database is fine")
M("B02",C,"            if product_mtime < input.metadata()?.modified()? {","            if product_mtime < input.symlink_metadata()?.modified()? {","links as inputs")
M("B02",C,"            product_mtime.elapsed().ok(),","            Some(product_mtime.elapsed().unwrap_or_default()),","future product")
M("B02",C,"match output.metadata().and_then(|m| m.modified()) {","match output.symlink_metadata().and_then(|m| m.modified()) {","product link")
M("B02",C,"            if product_mtime < input.metadata()?.modified()? {","            if product_mtime.duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs()) < input.metadata()?.modified()?.duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs()) {","whole seconds")
M("B03",O,"    let reader = match csv::Reader::from_path(path.as_ref()) {","    let reader = match csv::ReaderBuilder::new().flexible(true).from_path(path.as_ref()) {","rows with too many cells")
M("B03",O,"    let reader = match csv::Reader::from_path(path.as_ref()) {","    let reader = match csv::ReaderBuilder::new().comment(Some(b'#')).from_path(path.as_ref()) {","paths starting with #")
M("B03",O,"        if secs_f32 < 0.0 {","        if secs_f32 < -1.0 {","small negative times")
M("B03",O,"        if secs_f32 > u64::MAX as f32 + 0.999_999_999 {","        if secs_f32 > 1e18 {","huge times are errors")
M("B03",O,"wall_time.map(|time| time.as_secs_f32())","wall_time.map(|time| time.as_millis() as f32 / 1000.0)","times in ms")
M("B03",O,"            Duration::from_nanos((secs_f32.fract() * 1_000_000_000.0) as u64),","            Duration::from_millis((secs_f32.fract() * 1_000.0) as u64),","ms on reading")
L[:]=[m for m in L if m["note"] not in("placeholder","x")]
