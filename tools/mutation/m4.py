A="asylum/src/"; X="cpparser/src/"; SP="cpparser/src/subparsers/"; DI="src/ui/display/"
M("A01",A+"lib.rs","                let key = K::try_from_usize(self.items.len())\n                    .expect(\"Key space exhausted, must use a larger K\");\n                self.items.push(item);\n","                self.items.push(item);\n                let key = K::try_from_usize(self.items.len() - 1)\n                    .expect(\"Key space exhausted, must use a larger K\");\n","item stays after exhaustion")
M("A01",A+"sequence.rs","            let key = K::try_from_impl_key(start..start + sequence.len())\n                .expect(\"Key space exhausted, must use a larger K\");\n            self.concatenated.extend_from_slice(sequence);\n","            self.concatenated.extend_from_slice(sequence);\n            let key = K::try_from_impl_key(start..start + sequence.len())\n                .expect(\"Key space exhausted, must use a larger K\");\n","seq stays after exhaustion")
M("A01",A+"sequence.rs","        if len >= (1 << LEN_BITS) {","        if len > (1 << LEN_BITS) {","length wraps")
M("A01",A+"sequence.rs","        if offset.leading_zeros() < LEN_BITS {\n            return None;\n        }\n","","offset overflow")
M("A01",A+"sequence.rs","        if self.interner.concatenated.len() > self.initial_concatenated_len {\n            self.interner.concatenated.pop()\n        } else {\n            None\n        }","        self.interner.concatenated.pop()","pop below start")
M("A01",A+"sequence.rs","            self.interner.insert_sequence_key(hash, new_key);\n            std::mem::forget(self);\n            new_key","            self.interner.insert_sequence_key(hash, new_key);\n            if new_key.into_impl_key().is_empty() { return new_key; }\n            std::mem::forget(self);\n            new_key","equivalent")
M("A01",A+"sequence.rs","                    range.into_impl_key().count()\n                })\n                .max()","                    range.into_impl_key().count()\n                })\n                .filter(|l| *l > 0)\n                .max()","max of empty sequences")
M("A01",A+"sequence.rs","        self.sequences.len()\n    }\n\n    /// Total","        self.sequences.len()\n    }\n\n    /// Total","")
M("A02",A+"path.rs","                    if sequence.len() > 1 {","                    if sequence.len() > 0 {","pops the root")
M("A02",A+"path.rs","                    if sequence.len() > 1 {","                    if sequence.len() > 2 {","stops at depth one")
M("A02",A+"path.rs","        if path.is_relative() {","        if path.is_relative() && !path.as_os_str().is_empty() {","empty path")
M("A02",A+"path.rs","let path = Path::new(&path);","let path = Path::new(path.trim());","trims")
M("A02",A+"path.rs","let path = Path::new(&path);","let path = Path::new(path.trim_end_matches('.'));","trailing dots")
M("A02 P03 P01",A+"path.rs","            path_buf.push(component);","            path_buf.push(component.value().trim_end());","trailing spaces of components")
M("A02",A+"path.rs","self.key == other.key && std::ptr::eq(&*self.parent, &*other.parent)","self.key == other.key","views of different interners equal")
M("A02",A+"path.rs","        self.components.len()\n    }\n\n    /// ","        self.components.len()\n    }\n\n    /// ","")
# cpparser
M("P04",X+"display.rs","            if curr_display.width() > max_cols.into() {\n                break;","            if curr_display.len() > max_cols.into() {\n                break;","bytes")
M("P04",X+"display.rs","for recursion_depth in 0..=self.recursion_depth() {","for recursion_depth in 0..self.recursion_depth().max(1) {","never full")
M("P04",X+"display.rs","for recursion_depth in 0..=self.recursion_depth() {","for recursion_depth in 0..=self.recursion_depth().min(12) {","depth capped")
M("P04",X+"display.rs","        state.max_recursion += 1;\n","        state.max_recursion = state.max_recursion.saturating_add(1).min(64);\n","restored depth capped (only inf.)")
M("P04",X+"interning/slice.rs",".map(|item| item.recursion_depth() + 1)\n            .max()",".map(|item| item.recursion_depth() + 1)\n            .next()","depth of the first item")
M("P04",X+"interning/slice.rs",".map(|item| item.recursion_depth() + 1)\n            .max()",".map(|item| item.recursion_depth() + 1)\n            .last()","depth of the last item")
M("P04",X+"interning/slice.rs","        } else if self.iter().count() > 0 {","        } else if self.iter().count() > 1 {","single item elided silently")
M("P03 P04",X+"interning/recursion.rs","                sequence.clear();\n                sequence","                sequence","leftovers of failed parses")
M("P02",X+"lib.rs","final_parser(type_like.or(unknown).terminated(eof))(s)","final_parser(unknown.or(type_like).terminated(eof))(s)","unknown first")
M("P02 P03",SP+"anonymous.rs","take_till1(|c| c == ':')","take_till1(|c| c == ':' || c == ')')","paths with parens")
M("P02 P03",SP+"anonymous.rs","take_till1(|c| c == ':')","take_till1(|c| c == ':' || c == ' ')","paths with spaces")
M("P02 P03",SP+"anonymous.rs","let path_str = recognize(opt(disk_designator).and(take_till1(|c| c == ':')));","let path_str = recognize(take_till1(|c| c == ':'));","disk")
M("P02 P03",SP+"anonymous.rs","            char('(').and(tag(\"anonymous\").or(tag(\"unnamed\"))),","            char('(').and(tag(\"anonymous\")),","unnamed")
M("P02 P03",SP+"anonymous.rs","        } else if self.inner.location.is_some() {\n            write!(f, \" entity\")?;\n        }","        }","entity word")
M("P04",SP+"anonymous.rs","            Self::LibibertyLambda(l) => l.recursion_depth(),","            Self::LibibertyLambda(_) => 0,","lambda depth")
M("P04",SP+"anonymous.rs","            Self::LibibertyLambda(l) => l.display_impl(f, state),","            Self::LibibertyLambda(l) => write!(f, \"{l}\"),","lambda unlimited")
M("D02 D04",DI+"path.rs","if full_path.width() <= cols {","if full_path.len() <= cols {","bytes")
M("D02 D04",DI+"path.rs","if front_grapheme.width() <= rem_front_cols {","if front_grapheme.len() <= rem_front_cols {","bytes front")
M("D02 D04",DI+"path.rs","        if back_grapheme.width() <= cols {","        if back_grapheme.len() <= cols {","bytes back")
M("D02",DI+"path.rs","        .graphemes(true)","        .graphemes(false)","legacy graphemes")
M("D02",DI+"path.rs","let mut graphemes = file_name.graphemes(true);","let mut graphemes = file_name.split_inclusive(|_| true);","chars rather than graphemes")
M("D02",DI+"path.rs","            let need_separator = !(is_last_component || (candidate == root_component));","            let need_separator = !is_last_component;","root separator")
M("D02",DI+"path.rs","let available_cols = cols - (!is_last_component as usize);","let available_cols = cols.saturating_sub(1);","ellipsis always reserved")
M("D02",DI+"path.rs","            front ^= !other_side_full;","            front = !front && !other_side_full;","sides")
M("D02 D04",DI+"path.rs","    } else if cols >= MIN_FILENAME_WIDTH + 2 {","    } else if cols > MIN_FILENAME_WIDTH + 2 {","threshold")
M("D02",DI+"path.rs","        if !(buffer.is_empty() || buffer.ends_with(PATH_SEPARATOR)) {","        if !buffer.is_empty() && buffer != \"/\" {","equivalent")
M("D04",DI+"activity.rs","if usize::from(*max_cols) < activity_name.width() + 3 * (has_argument as usize) {","if usize::from(*max_cols) < activity_name.width() + 2 * (has_argument as usize) {","no room for ellipsis")
M("D04",DI+"activity.rs","let has_argument = *activity_arg != ActivityArgument::Nothing;","let has_argument = !matches!(activity_arg, ActivityArgument::Nothing) && *activity_arg != ActivityArgument::String(\"\".into());","empty string arg")
M("D04",DI+"activity.rs","        ActivityArgument::UnnamedLoop => {\n            super::display_string(&mut output, \"<unnamed loop>\", config)\n        }","        ActivityArgument::UnnamedLoop => write!(output, \"<unnamed loop>\"),","loop not truncated")
M("D04",DI+"activity.rs","        ActivityArgument::Module => super::display_string(&mut output, \"[module]\", config),","        ActivityArgument::Module => write!(output, \"[module]\"),","module not truncated")
M("D04 U02",DI+"activity.rs","write!(output, \"{}\", e.display(&DisplayState::default()))","write!(output, \"{}\", e.bounded_display(200))","multi-line bounded")
M("D01",DI+"mod.rs","    if input.width() <= max_cols {","    if input.len() <= max_cols {","bytes")
M("D01",DI+"mod.rs","    let max_header_cols = (max_cols - 1) / 2;","    let max_header_cols = max_cols / 2;","balance")
M("D01",DI+"mod.rs","    let max_trailer_cols = max_cols - 1 - header_cols;","    let max_trailer_cols = max_cols - 1 - max_header_cols;","wasted columns")
M("D01",DI+"mod.rs","        if new_trailer_cols <= max_trailer_cols {\n            trailer_cols = new_trailer_cols;\n            trailer_start = offset;\n        } else {\n            break;\n        }","        if new_trailer_cols <= max_trailer_cols {\n            trailer_cols = new_trailer_cols;\n            trailer_start = offset;\n        }","no break: overlaps")
M("P05","simpp/src/main.rs","stdin.truncate(stdin.trim_end_matches(['\\r', '\\n']).len());","stdin.truncate(stdin.trim_end_matches('\\n').len());","CRLF")
M("P05","simpp/src/main.rs","stdin.truncate(stdin.trim_end_matches(['\\r', '\\n']).len());","stdin.truncate(stdin.trim_end().len());","trailing blanks")
M("P05","simpp/src/main.rs","            if std::io::stdin().is_terminal() {\n                None","            if args.max_cols == 0 || std::io::stdin().is_terminal() {\n                None","0 cols")
M("P05","simpp/src/main.rs","    max_cols: u16,","    max_cols: u8,","256 cols (nobuild?)")
