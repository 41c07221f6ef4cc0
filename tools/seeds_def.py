"""The planted bugs: id -> property, edits (file, old, new), demonstration (body of main), needs, breaks."""
VI = 'src/keymap/vi.rs'; EM = 'src/keymap/emacs.rs'; ED = 'src/editor.rs'; HI = 'src/history.rs'; BU = 'src/buffer.rs'
CX = 'src/context.rs'; CO = 'src/complete.rs'; UT = 'src/util.rs'; KM = 'src/keymap/mod.rs'
SEEDS = {}
def seed(id, edits, demo, needs, breaks):
    SEEDS[id] = dict(property=id[:3], edits=edits, demo=demo, needs=needs, breaks=breaks)

seed('C01-abort-eol', [(VI, '        self.mode_stack.clear();\n        ed.no_eol = true;\n', '        self.mode_stack.clear();\n')],
r'''
    same("cursor after u", after(true, &[], "", "ab<Esc>xr<Esc>u"), ("ab".to_string(), 1));
''', 'an aborted r followed by an undo', 'in vi normal mode the cursor ends up after the last character')

seed('C02-word-edge', [(EM, 'if i < words.len() - 1 && direction', 'if i + 2 < words.len() && direction')],
r'''
    same("Alt-f", after(false, &[], "ab cd", "<Home>^f^f<M-f>"), ("ab cd".to_string(), 5));
''', 'Alt-f with the cursor directly after the second to last word', 'the cursor does not move')

seed('C02-left-edge', [(ED, 'if ignore_space_before_cursor && i > 0 {', 'if ignore_space_before_cursor && i > 1 {')],
r'''
    same("Ctrl-W", after(false, &[], "ab cd", "<Left><Left>^w"), ("cd".to_string(), 0));
''', 'Ctrl-W with the cursor at the start of the second word', 'nothing is deleted')

seed('C03-keyword', [(VI, "c == '_' || c.is_alphanumeric()", "c == '_' || c.is_ascii_alphanumeric()")],
r'''
    same("w", after(true, &[], "é9a b", "<Esc>0w"), ("é9a b".to_string(), 4));
''', 'a word with non-ASCII letters', 'w stops within the word')

seed('C03-reverse-T', [(VI, '(_, ReverseRepeat, Some((c, LeftUntil))) => (Key::Char(c), RightUntil)', '(_, ReverseRepeat, Some((c, LeftUntil))) => (Key::Char(c), RightAt)')],
r'''
    same("Ta,", after(true, &[], "xaxxxax", "<Esc>0llllTa,"), ("xaxxxax".to_string(), 4));
''', 'T followed by ,', 'the cursor lands on the character instead of before it')

seed('C04-tilde-special', [(VI, '                        for c in c.to_uppercase() {\n                            ed.insert_after_cursor(c)?;\n                        }\n', '                        let upper = c.to_uppercase().next().unwrap_or(c);\n                        ed.insert_after_cursor(upper)?;\n')],
r'''
    same("~", after(true, &[], "aß", "<Esc>~").0, "aSS".to_string());
''', 'a character whose upper case is two characters', '~ turns ß into S')

seed('C04-count-product', [(VI, 'self.secondary_count.saturating_mul(self.count)', 'self.secondary_count.saturating_add(self.count)')],
r'''
    same("3d2h", after(true, &[], "abcdefgh", "<Esc>3d2h").0, "ah".to_string());
''', 'a count before the operator and one before the motion, not both 2', 'the counts are added, not multiplied')

seed('C06-redo-kept', [(BU, '        self.actions.push(act);\n        self.undone_actions.clear();\n', '        if let Action::Insert { .. } = act {\n            self.undone_actions.clear();\n        }\n        self.actions.push(act);\n')],
r'''
    let mut b = Buffer::from("abc");
    b.insert(3, &['d']);
    b.undo();
    b.remove(0, 1);
    b.redo();
    same("text", b.to_string(), "bc".to_string());
''', 'an undo, then a removal, then a redo', 'what had been undone can still be redone')

seed('C07-tilde-group', [(VI, "        if mode == Insert || mode == Tilde {\n", "        if mode == Insert {\n"), (VI, 'if last_mode == Insert || last_mode == Tilde {', 'if last_mode == Insert {')],
r'''
    same("0~2~u", after(true, &[], "", "abc<Esc>03~u").0, "abc".to_string());
''', '~ with a count, undone', 'u takes back the last character only')

seed('C09-subset-exact', [(HI, 'contains && !starts && tested != search_term', 'contains && !starts')],
r'''
    let mut c = context(false, &["xab", "ab", "abc"], 80);
    let mut s = S::new(&mut c, "ab");
    s.press("<Up><Up>").unwrap();
    same("entry", s.text(), "xab".to_string());
''', 'an entry equal to the text typed', 'Up visits it')

seed('C10-forward-refine', [(ED, 'if forward || target_loc == *history_loc || i == 0 {', 'if target_loc == *history_loc || i == 0 {')],
r'''
    let h = ["ab", "a", "ab", "b", "ab"];
    let mut c = context(false, &h, 80);
    let mut s = S::new(&mut c, "");
    // forward search: a (entries 0 1 2 4), on to entry 1, refine to ab: next one forward is entry 2
    s.press("^sa^sb").unwrap();
    let shown = s.shown();
    ok(&format!("(2/3) shown: {:?}", &shown[shown.len().saturating_sub(120)..]), shown.rsplit("(search)").next().unwrap().contains("(2/3)"));
''', 'a forward search, stepped and then refined so that the current match drops out', 'the match before the current one is offered instead of the next')

seed('C11-stale-copy', [(ED, '''        self.clear_search();
        self.hist_buf_valid = false;
        if self.cur_history_loc.is_some() {
''', '''        self.clear_search();
        if self.cur_history_loc.is_some() {
''')],
r'''
    let mut c = context(false, &["abc", "x"], 80);
    let mut s = S::new(&mut c, "");
    s.press("<Up>y<M-gt>a").unwrap();
    ok("suggestion after returning to the new line", s.ed.is_currently_showing_autosuggestion());
    s.press("^f").unwrap();
    same("accepted", s.text(), "abc".to_string());
''', 'editing a recalled entry, Alt->, typing', 'no suggestion is shown any more')

seed('C12-codes', [(UT, "AnsiState::Osc if c == '\\x07' => s = AnsiState::Norm,", "AnsiState::Osc if c == '\\x07' || c == ';' => s = AnsiState::Norm,")],
r'''
    let mut c = context(false, &[], 80);
    let mut s = S::with(&mut c, Prompt::from("\x1b]0;a;b\x07> "), "");
    s.press("a").unwrap();
    let shown = s.shown();
    ok(&format!("cursor in column 3: {:?}", shown), shown.ends_with("\r\x1b[3C"));
''', 'a prompt that sets the title of the window', 'the cursor is put into the wrong column')

seed('C13-dedup', [(ED, '            completions.sort();\n            completions.dedup();\n', '            completions.dedup();\n            completions.sort();\n')],
r'''
    let mut c = context(false, &[], 80);
    let mut s = S::new(&mut c, "");
    s.comp.0 = ["ab", "ac", "ab"].iter().map(|s| s.to_string()).collect();
    s.press("a<Tab><Tab><Tab>").unwrap();
    same("third Tab", s.text(), "ac".to_string());
''', 'a completer that offers a candidate twice, not next to each other', 'the candidate is listed twice')

seed('C14-link', [(CO, 'if dir.path().is_dir() {', 'if dir.file_type().map_or(false, |t| t.is_dir()) {')],
r'''
    let d = scratch();
    std::fs::create_dir(d.join("real")).unwrap();
    std::os::unix::fs::symlink(d.join("real"), d.join("link")).unwrap();
    same("candidates", FilenameCompleter::new(Some(d)).completions("li"), vec!["link/".to_string()]);
''', 'a symbolic link to a directory', 'no slash is added')

seed('C15-limit-lowered', [(HI, 'while self.buffers.len() > self.max_buffers_size {', 'if self.buffers.len() > self.max_buffers_size {')],
r'''
    let mut h = History::new();
    for x in ["a", "b", "c", "d"] {
        h.push(Buffer::from(x)).unwrap();
    }
    h.set_max_buffers_size(2);
    h.push(Buffer::from("e")).unwrap();
    same("entries", h.len(), 2);
''', 'lowering the limit below the number of entries, then a push', 'more entries than the limit stay in memory')

seed('C16-comment-blank', [(HI, '''                        if !line.starts_with('#') {
                            loaded''', '''                        if !line.trim_start().starts_with('#') {
                            loaded''')],
r'''
    let p = scratch().join("h");
    std::fs::write(&p, "a\n #b\nc\n").unwrap();
    let mut h = History::new();
    h.set_file_name_and_load_history(&p).unwrap();
    same("entries", h.len(), 3);
''', 'an entry that begins with blanks and a #', 'it is taken for a comment and not loaded')

seed('C19-flush', [(KM, '        editor.flush()?;\n', '        let _ = editor.flush();\n')],
r'''
    // every operation of a read fails once
    let mut n = 1;
    loop {
        let mut c = context(false, &["abc"], 80);
        c.terminal.fail_at = n;
        let r = read(&mut c, "", "a^z<CR>");
        if c.terminal.ops.get() < n {
            break;
        }
        if n > 84 {
            ok(&format!("operation {} failed, the read said {:?}", n, r), r.is_err());
        }
        n += 1;
    }
''', 'the flush after a key that changes nothing failing', 'the error is swallowed')

seed('C20-eof-edited', [(ED, '''            Some(i) => {
                if ed.hist_buf_valid {
                    ed.hist_buf
                } else {
                    ed.context.history()[i].clone()
                }
            }
''', '''            Some(i) => ed.context.history()[i].clone(),
''')],
r'''
    let mut c = context(false, &["abc"], 80);
    same("line", read(&mut c, "", "<Up>x<CR>").unwrap(), "abcx".to_string());
''', 'entering an edited recalled entry', 'the entry is returned without the edits')

seed('C20-ctrl-d', [(KM, "let is_empty = editor.current_buffer().is_empty();", "let is_empty = editor.cursor() == 0;")],
r'''
    let mut c = context(false, &[], 80);
    same("line", read(&mut c, "", "ab<Home>^d<CR>").map_err(|e| e.kind()), Ok("b".to_string()));
''', 'Ctrl-D at the start of a line that is not empty', 'the read ends')

seed('C21-tabs', [(CX, "if c == ' ' && !just_had_backslash {", "if c.is_whitespace() && !just_had_backslash {"), (CX, "} else if c != ' ' {", "} else if !c.is_whitespace() {")],
r'''
    same("words", get_buffer_words(&Buffer::from("a\tb c")), vec![(0, 3), (4, 5)]);
''', 'a tab in the line', 'it separates words')

seed('C22-lines', [(BU, '''        self.data
            .split(|&c| c == '\\n')
            .map(|s| s.iter().cloned().collect())
            .collect()
''', '''        self.to_string().lines().map(str::to_owned).collect()
''')],
r'''
    same("lines", Buffer::from("a\n").lines(), vec!["a".to_string(), "".to_string()]);
''', 'a text that ends in a newline', 'its last line is missing')

seed('C23-abort-shown', [(VI, '''        self.count = 0;
        self.aborted = true;
        self.set_editor_mode(&mut ed)
''', '''        self.count = 0;
        self.aborted = true;
        ed.display()
''')],
r'''
    let mut c = context(true, &[], 80);
    let p = Prompt { prompt: "$ ".into(), vi_status: Some(ViStatus::new(ViPromptMode::Insert, "[N] ", "[I] ")) };
    let mut s = S::with(&mut c, p, "ab");
    s.press("<Esc>c<Esc>").unwrap();
    let shown = s.shown();
    ok(&format!("normal mode shown: {:?}", shown), shown.rfind("[N]") > shown.rfind("[I]"));
''', 'an abandoned change command', 'the prompt goes on to say insert mode')

seed('C23-set-prompt', [(ED, '                passed_status.mode = old_status.mode;\n', '                if passed_status.normal == old_status.normal {\n                    passed_status.mode = old_status.mode;\n                }\n')],
r'''
    let mut c = context(true, &[], 80);
    let st = |n: &str, i: &str| Some(ViStatus::new(ViPromptMode::Insert, n, i));
    let p = Prompt { prompt: "$ ".into(), vi_status: st("[N] ", "[I] ") };
    let mut s = S::with(&mut c, p, "ab");
    s.press("<Esc>").unwrap();
    s.ed.set_prompt(Prompt { prompt: "> ".into(), vi_status: st("N:", "I:") });
    s.press("h").unwrap_or(false);
    s.press("x").unwrap();
    let mut d = context(true, &[], 80);
    let mut t = S::with(&mut d, Prompt { prompt: "$ ".into(), vi_status: st("[N] ", "[I] ") }, "ab");
    t.press("<Esc>").unwrap();
    t.ed.set_prompt(Prompt { prompt: "> ".into(), vi_status: st("N:", "I:") });
    t.ed.display().unwrap();
    let shown = t.shown();
    ok(&format!("normal mode shown: {:?}", shown), shown.contains("N:") && !shown.contains("I:"));
''', 'replacing the prompt in normal mode by one with other indicators', 'the new prompt says insert mode')

seed('C24-empty-word', [(BU, "            .split(|&c| c == ' ')\n            .filter(|s| !s.is_empty())\n            .last()", "            .split(|&c| c == ' ')\n            .last()")],
r'''
    same("Alt-.", after(false, &["ab cd "], "", "<M-.>").0, "cd".to_string());
''', 'an entry that ends in a blank', 'nothing is inserted')

seed('C24-wrap', [(EM, "            Some(0) => return Ok(()),\n", "            Some(0) => ed.context().history().len() - 1,\n")],
r'''
    same("Alt-.", after(false, &["a b", "c d"], "", "<M-.><M-.><M-.>").0, "b".to_string());
''', 'Alt-. pressed once more often than there are entries', 'it starts over at the newest entry')

seed('C05-delete-key', [(VI, '            Key::Backspace | Key::Delete => {\n                if self.movement_reset', '            Key::Backspace => {\n                if self.movement_reset')],
r'''
    same("dot", after(true, &[], "abcd", "<Esc>0ix<Del><Esc>$.").0, "xbcx".to_string());
''', 'Delete pressed in insert mode, then the insertion repeated', 'the repetition does not delete')

seed('C05-tilde-count', [(VI, "                self.last_count = self.count;\n\n                self.set_mode(Tilde, ed)?;", "                self.set_mode(Tilde, ed)?;")],
r'''
    same("dot", after(true, &[], "abcdef", "<Esc>x03~.").0, "ABCDE".to_string());
''', 'a counted ~, repeated after an uncounted change', 'the repetition changes one character only')

seed('C07-home-end', [(VI, '            Key::Left | Key::Right | Key::Home | Key::End => {\n', '            Key::Left | Key::Right => {\n')],
r'''
    same("u", after(true, &[], "", "ab<Home>x<Esc>u").0, "ab".to_string());
''', 'Home in insert mode between two insertions, then u', 'u takes back both')

seed('C08-keep-edits', [(ED, '''        self.clear_search();
        self.hist_buf_valid = false;
        if self.context.history().is_empty() {
''', '''        self.clear_search();
        if mem::replace(&mut self.hist_buf_valid, false) {
            if let Some(i) = self.cur_history_loc {
                self.context.history_mut()[i] = self.hist_buf.clone();
            }
        }
        if self.context.history().is_empty() {
''')],
r'''
    let mut c = context(false, &["one", "two"], 80);
    { S::new(&mut c, "").press("<Up>x<M-lt>").unwrap(); }
    same("history", c.history.buffers.iter().map(|b| b.to_string()).collect::<Vec<_>>(), vec!["one".to_string(), "two".to_string()]);
''', 'editing a recalled entry, then Alt-<', 'the stored entry is changed')

seed('C09-stale-subset', [(ED, '''                        self.cur_history_loc = None;
                        self.history_subset_loc = None;
                        self.history_subset_index.clear();
                        self.history_fresh = false;
''', '''                        self.cur_history_loc = None;
                        self.history_fresh = false;
''')],
r'''
    same("entry", after(false, &["ax", "bx", "ay"], "", "a<Up><Down><BS>b<Up>").0, "bx".to_string());
''', 'coming back to the new line and typing something else before the next Up', 'Up goes on among the entries that matched before')

seed('C09-down-empty', [(ED, 'Some(i) if i < self.context.history().len() - 1 => {', 'Some(i) if i + 2 < self.context.history().len() || i == 0 && self.context.history().len() == 2 => {')],
r'''
    same("entry", after(false, &["a", "b", "c"], "", "<Up><Up><Down>").0, "c".to_string());
''', 'Down from the second newest of three or more entries', 'it returns to the new line at once')

seed('C12-clear-line', [(ED, 'clear::AfterCursor)', 'clear::CurrentLine)')],
r'''
    let mut c = context(false, &[], 10);
    let mut s = S::new(&mut c, "abcdefghijkl");
    s.shown();
    s.press("^u").unwrap();
    let shown = s.shown();
    ok(&format!("the second line is cleared: {:?}", shown), shown.contains("\x1b[J"));
''', 'a text of two terminal lines that becomes shorter', 'the rest of it stays on the screen')

seed('C14-case', [(CO, 'file_name.to_string_lossy().to_lowercase()', 'file_name.to_string_lossy().to_ascii_lowercase()')],
r'''
    let d = scratch();
    std::fs::write(d.join("Éa"), "").unwrap();
    same("candidates", FilenameCompleter::with_case_sensitivity(Some(d), false).completions("é"), vec!["Éa".to_string()]);
''', 'a name with an upper case letter beyond ASCII, ignoring case', 'it is not offered')

seed('C15-newest-first', [(HI, 'if pos > 0 {', 'if pos > 1 {')],
r'''
    let mut h = History::new();
    h.push(Buffer::from("abc")).unwrap();
    same("match", h.get_newest_match(None, &Buffer::from("a")), Some(0));
''', 'a history of one entry', 'its only entry is not found')

seed('C15-dup-len', [(HI, '            && self.buffers.back().map(|b| b.to_string()) == Some(new_item.to_string())\n', '            && self.buffers.back().map_or(false, |b| b.to_string().trim_end() == new_item.to_string().trim_end())\n')],
r'''
    let mut h = History::new();
    h.push(Buffer::from("a")).unwrap();
    h.push(Buffer::from("a ")).unwrap();
    same("entries", h.len(), 2);
''', 'an entry that differs from the one before in a trailing blank', 'it is dropped as a duplicate')

seed('C16-limit-one', [(HI, '        if buf.len() >= max_file_size {\n            let pop_out = buf.len() - max_file_size;\n            for _ in 0..pop_out {\n                buf.pop_front();\n            }\n        }\n        let mut tmp_buffers: Vec<String>', '        if buf.len() > max_file_size {\n            buf.drain(max_file_size..);\n        }\n        let mut tmp_buffers: Vec<String>')],
r'''
    let p = scratch().join("h");
    std::fs::write(&p, "").unwrap();
    let mut h = History::new();
    h.inc_append = true;
    h.load_duplicates = false;
    h.set_max_file_size(20);
    h.set_file_name_and_load_history(&p).unwrap();
    for i in 0..30 {
        h.push(Buffer::from(format!("e{}", i))).unwrap();
    }
    ok("the newest entry is in the file", std::fs::read_to_string(&p).unwrap().ends_with("e29\n"));
''', 'a compaction of a file above its limit', 'the newest entries are dropped instead of the oldest')

seed('C16-dedup-keeps-old', [(HI, '''        while let Some(line) = buf.pop_back() {
            buf.retain(|buffer| *buffer != line);
            tmp_buffers.push(line);
        }
        while let Some(line) = tmp_buffers.pop() {
            buf.push_back(line);
        }
''', '''        while let Some(line) = buf.pop_front() {
            buf.retain(|buffer| *buffer != line);
            tmp_buffers.push(line);
        }
        buf.extend(tmp_buffers);
''')],
r'''
    let p = scratch().join("h");
    std::fs::write(&p, "").unwrap();
    let mut h = History::new();
    h.inc_append = true;
    h.load_duplicates = false;
    h.set_file_name_and_load_history(&p).unwrap();
    for i in 0..29 {
        h.push(Buffer::from(format!("e{}", i))).unwrap();
    }
    h.push(Buffer::from("e3")).unwrap();
    ok("the newest entry is the last one", std::fs::read_to_string(&p).unwrap().ends_with("e28\ne3\n"));
''', 'a compaction of a file with a repeated entry', 'the older occurrence is kept, not the newer')

seed('C19-key-error', [(CX, '                if keymap.handle_key(key?, &mut ed, handler)? {\n', '                let key = match key {\n                    Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => break,\n                    key => key?,\n                };\n                if keymap.handle_key(key, &mut ed, handler)? {\n')],
r'''
    struct E(T);
    impl std::io::Write for E {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.write(b) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    impl Tty for E {
        fn next_key(&mut self) -> Option<std::io::Result<Key>> {
            match self.0.keys.pop_front() {
                Some(k) => Some(Ok(k)),
                None => Some(Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "gone"))),
            }
        }
        fn width(&self) -> std::io::Result<usize> { Ok(80) }
    }
    let mut c: Context<E> = Context::with_terminal(E(T { keys: keys("ab").into_iter().collect(), width: 80, ..T::default() }));
    let r = c.read_line_with_init_buffer(Prompt::from("$ "), &mut Comp(vec![]), None, "");
    ok(&format!("an error: {:?}", r), r.is_err());
''', 'the terminal failing with "unexpected end of file"', 'what was typed so far is returned as if it had been entered')

seed('C19-print-error', [(ED, '                out.write_all(b" ")?; // if', '                let _ = out.write_all(b" "); // if')],
r'''
    let mut n = 1;
    loop {
        let mut c = context(false, &[], 80);
        c.terminal.fail_at = n;
        let r = read(&mut c, "", "a<CR>");
        if c.terminal.ops.get() < n {
            break;
        }
        // the first width query may be replaced by a default
        if n > 2 {
            ok(&format!("operation {} failed, the read said {:?}", n, r), r.is_err());
        }
        n += 1;
    }
''', 'a write failing while the end of unfinished output is marked', 'the error is swallowed')

seed('C20-hint-ctrl-c', [(KM, "            Key::Ctrl('c') => {\n                editor.handle_newline()?;\n", "            Key::Ctrl('c') => {\n                if !editor.handle_newline()? {\n                    return Ok(false);\n                }\n")],
r'''
    let mut c = context(false, &[], 80);
    same("Ctrl-C after a backslash", read(&mut c, "", "a\\^cb<CR>").map_err(|e| e.kind()), Err(std::io::ErrorKind::Interrupted));
''', 'Ctrl-C directly after a backslash', 'the read goes on')

seed('C21-start', [(CX, "        } else if c != ' ' {\n            word_start = Some(i);\n        }\n\n        just_had_backslash = false;", "        } else if c != ' ' || just_had_backslash {\n            word_start = Some(i);\n        }\n\n        just_had_backslash = c == '\\'' && just_had_backslash;")],
r'''
    same("words", get_buffer_words(&Buffer::from("a\\' b")), vec![(0, 3), (4, 5)]);
''', "a blank after \\'", 'the blank does not end the word')

seed('C22-bytes', [(BU, '        let string: String = self.data.iter().skip(after).cloned().collect();\n', '        let string = &self.to_string()[after..];\n')],
r'''
    let mut out = vec![];
    Buffer::from("éa").print_rest(&mut out, 1).unwrap();
    same("rest", String::from_utf8(out).unwrap(), "a".to_string());
''', 'a character of several bytes before the position', 'the position is taken in bytes')

seed('C24-recalled', [(EM, '                .current_history_location()\n                .unwrap_or(ed.context().history().len() - 1),\n', '                .current_history_location()\n                .map_or(ed.context().history().len() - 1, |i| i.saturating_sub(1)),\n')],
r'''
    same("line", after(false, &["a b", "c d"], "", "<Up><M-.>").0, "c dd".to_string());
''', 'Alt-. on a recalled entry', 'the word of the entry before is taken')

seed('C03-newline', [(VI, 'State::EndOnWhitespace if c.is_whitespace() => {', "State::EndOnWhitespace if c == ' ' => {")],
r'''
    same("B", after(true, &[], "ab\ncd", "<Esc>B"), ("ab\ncd".to_string(), 3));
''', 'a line break within the text', 'B and E take it for part of a word')

seed('C08-carry', [(ED, '''        if self.cur_history_loc.is_some() {
            self.cur_history_loc = None;
            self.move_cursor_to_end_of_line()
''', '''        if self.cur_history_loc.take().is_some() {
            if self.new_buf.is_empty() {
                self.new_buf = mem::take(&mut self.hist_buf);
            }
            self.move_cursor_to_end_of_line()
''')],
r'''
    same("new line", after(false, &["one", "two"], "", "<Up>x<M-gt>").0, "".to_string());
''', 'editing a recalled entry, then Alt->, with an empty new line', 'the new line is not what it was')

seed('C12-list-rows', [(ED, '        self.term_cursor_line += completion_lines;\n', '        self.term_cursor_line += cmp::min(completion_lines, 4);\n')],
r'''
    let mut c = context(false, &[], 20);
    let mut s = S::new(&mut c, "a");
    s.comp.0 = ["aaaaaaa1", "aaaaaaa2", "aaaaaaa3", "aaaaaaa4", "aaaaaaa5", "aaaaaaa6", "aaaaaaa7", "aaaaaaa8", "aaaaaaa9"].iter().map(|s| s.to_string()).collect();
    s.press("<Tab><Tab>").unwrap();
    let first = s.shown();
    let rows = first[first.rfind("aaaaaaa1").unwrap()..].matches("\r\n").count();
    s.press("<Tab>").unwrap();
    let shown = s.shown();
    ok(&format!("up {} lines: {:?}", rows, shown), shown.contains(&format!("\x1b[{}A", rows)));
''', 'a candidate list of more than four lines', 'the list is drawn again below the old one')

seed('C13-enter-list', [(ED, '''        if self.show_completions_hint.is_some() {
            self.show_completions_hint = None;
            self.display()?;
''', '''        if self.show_completions_hint.take().map_or(false, |(_, selected)| selected.is_some()) {
            self.display()?;
''')],
r'''
    let mut c = context(false, &[], 80);
    let mut s = S::new(&mut c, "a");
    s.comp.0 = ["aa", "ab"].iter().map(|s| s.to_string()).collect();
    same("done", s.press("<Tab><CR>").unwrap(), false);
''', 'Enter while the list is open but no candidate selected yet', 'the line is entered instead of the list closed')

seed('C17-late-size', [(HI, '        Ok(new_length)\n    }\n', '        Ok(fs::metadata(path)?.len())\n    }\n')],
r'''
    use std::io::Write;
    use std::sync::{atomic::{AtomicBool, Ordering}, Arc};
    let p = scratch().join("h");
    std::fs::write(&p, (0..6000).map(|i| format!("entry {}\n", i)).collect::<String>()).unwrap();
    let mut h = History::new();
    h.inc_append = true;
    h.share = true;
    h.load_duplicates = false;
    h.set_max_file_size(100000);
    let done = Arc::new(AtomicBool::new(false));
    let (d, q) = (done.clone(), p.clone());
    let other = std::thread::spawn(move || {
        let mut f = std::fs::OpenOptions::new().append(true).open(q).unwrap();
        let mut n = 0;
        while !d.load(Ordering::SeqCst) && n < 20000 {
            f.write_all(format!("other {}\n", n).as_bytes()).unwrap();
            n += 1;
            std::thread::sleep(std::time::Duration::from_millis(10));
        }
        n
    });
    h.set_file_name_and_load_history(&p).unwrap();
    done.store(true, Ordering::SeqCst);
    let n = other.join().unwrap();
    h.load_history(false).unwrap();
    same("entries", h.len(), 6000 + n);
''', 'another session saving an entry while the file is being loaded', 'the entry is never loaded')

FULL = r'''
    // a disk that is full
    extern "C" {
        fn setrlimit(what: i32, to: *const [u64; 2]) -> i32;
        fn signal(n: i32, to: usize) -> usize;
    }
    let full = || unsafe {
        signal(25, 1);
        setrlimit(1, &[0, 0]);
    };
'''
seed('C18-truncate-first', [(HI, '        if buf.len() >= max_file_size {\n            let pop_out = buf.len() - max_file_size;\n            for _ in 0..pop_out {\n                buf.pop_front();\n            }\n        }\n        let mut tmp_buffers: Vec<String>', '        if buf.len() > max_file_size {\n            buf.drain(..buf.len() - max_file_size);\n            // It is too long, and written anew.\n            File::create(path)?;\n        }\n        let mut tmp_buffers: Vec<String>')],
FULL + r'''
    let p = scratch().join("h");
    std::fs::write(&p, "").unwrap();
    let mut h = History::new();
    h.inc_append = true;
    h.load_duplicates = false;
    h.set_max_file_size(20);
    h.set_file_name_and_load_history(&p).unwrap();
    for i in 0..29 {
        h.push(Buffer::from(format!("e{}", i))).unwrap();
    }
    full();
    h.push(Buffer::from("e29")).unwrap();
    same("lines left", std::fs::read_to_string(&p).unwrap().lines().count(), 29);
''', 'a compaction of a file above its limit that fails or is killed half-way', 'the whole file is lost')

seed('C18-remove-first', [(HI, '            self.overwrite_history(path)\n        }\n', '            // Not the file a link points to.\n            if path.as_ref().exists() {\n                fs::remove_file(path.as_ref())?;\n            }\n            self.overwrite_history(path.as_ref())\n        }\n')],
FULL + r'''
    let p = scratch().join("h");
    std::fs::write(&p, "a\nb\n").unwrap();
    let mut h = History::new();
    h.set_file_name_and_load_history(&p).unwrap();
    h.push(Buffer::from("c")).unwrap();
    full();
    h.commit_to_file();
    ok("the old entries are left", std::fs::read_to_string(&p).map_or(false, |t| t.starts_with("a\nb\n")));
''', 'saving the whole history killed half-way', 'the whole file is lost')

seed('C10-wrap', [(ED, '                    Some(self.history_subset_index.len() - 1)\n                }\n            } else {\n                None\n            };\n', '                    Some(0)\n                }\n            } else {\n                None\n            };\n')],
r'''
    let mut c = context(false, &["xa1", "xa2", "xa3"], 80);
    let mut s = S::new(&mut c, "");
    s.press("^ra^r^r^r").unwrap();
    s.press("^f").unwrap();
    same("line", s.text(), "xa3".to_string());
''', 'Ctrl-R once more at the oldest match', 'it stays there instead of wrapping around to the newest')

seed('C16-reload-append', [(HI, '            self.load_history_file_test(&path, file_size, append)\n', '            self.load_history_file_test(&path, file_size, append || file_size > 4)\n')],
r'''
    let p = scratch().join("h");
    std::fs::write(&p, "a\nb\nc\n").unwrap();
    let mut h = History::new();
    h.set_file_name_and_load_history(&p).unwrap();
    std::fs::write(&p, "a\nb\nc\nd\n").unwrap();
    h.load_history(false).unwrap();
    same("entries", h.len(), 4);
''', 'reloading a file that has grown', 'the old entries are there twice')

seed('C20-slash-only', [(ED, "        let char_before_cursor = cur_buf!(self).char_before(self.cursor);\n        if char_before_cursor == Some('\\\\') {", "        let num_chars = cur_buf!(self).num_chars();\n        if cur_buf!(self).char_before(num_chars) == Some('\\\\') {")],
r'''
    same("done", { let mut c = context(false, &[], 80); let mut s = S::new(&mut c, "ab\\"); s.press("<Home><CR>").unwrap() }, true);
''', 'Enter in the middle of a line that ends in a backslash', 'a line break is inserted at the cursor')

seed('C24-blank-end', [(BU, "            .filter(|s| !s.is_empty())\n            .last()\n", "            .rev()\n            .find(|s| !s.is_empty() && s[0] != '#')\n")],
r'''
    same("Alt-.", after(false, &["cmd a #b"], "", "<M-.>").0, "#b".to_string());
''', 'an entry whose last word begins with #', 'the word before it is taken')

seed('C25-bytes', [(ED, '        self.insert_chars_after_cursor(&s.chars().collect::<Vec<char>>()[..])\n', '        if !s.is_empty() {\n            let text: Vec<char> = s.chars().collect();\n            cur_buf_mut!(self).insert(self.cursor, &text);\n        }\n        self.cursor += s.len();\n        self.display()\n')],
r'''
    let mut c = context(false, &[], 80);
    let mut s = S::new(&mut c, "abcd");
    s.press("<Home>").unwrap();
    s.ed.insert_str_after_cursor("é").unwrap();
    same("text and cursor", s.at(), ("éabcd".to_string(), 1));
''', 'a string with non-ASCII characters inserted within the line', 'the cursor moves too far')

seed('C25-redo-cursor', [(ED, '        let did = cur_buf_mut!(self).redo();\n        if did {\n            self.move_cursor_to_end_of_line()?;\n        } else {\n            self.display()?;\n        }\n        Ok(did)\n', '        let did = cur_buf_mut!(self).redo();\n        self.display()?;\n        Ok(did)\n')],
r'''
    let mut c = context(false, &[], 80);
    let mut s = S::new(&mut c, "");
    s.ed.insert_str_after_cursor("abc").unwrap();
    s.ed.undo().unwrap();
    s.ed.redo().unwrap();
    same("text and cursor", s.at(), ("abc".to_string(), 3));
''', 'a redo that makes the line longer', 'the cursor stays where it was')

seed('C26-highlight', [(ED, '            if Some(index) == highlighted {\n                write!(\n                    output_buf,\n                    "{}{}",\n                    color::Black', '            if Some(i) == highlighted {\n                write!(\n                    output_buf,\n                    "{}{}",\n                    color::Black'), (ED, '            if Some(index) == highlighted {\n                write!(\n                    output_buf,\n                    "{}{}",\n                    color::Reset', '            if Some(i) == highlighted {\n                write!(\n                    output_buf,\n                    "{}{}",\n                    color::Reset')],
r'''
    let mut c = context(false, &[], 9);
    let mut s = S::new(&mut c, "");
    s.comp.0 = ["aaaaaa1", "baaaaa2"].iter().map(|s| s.to_string()).collect();
    s.press("<Tab>").unwrap();
    s.shown();
    s.press("<Tab>").unwrap();
    let shown = s.shown();
    same("highlighted", shown.matches("\x1b[49m").count(), 1);
''', 'a candidate list of several rows', 'the candidates of other rows are highlighted as well')

seed('C26-line-closure', [(ED, '                let written_line = match self.closure {\n                    Some(ref f) => f(&line),\n', '                let written_line = match self.closure {\n                    Some(ref f) if i == 0 => f(&line),\n'), (ED, '                    None => line,\n', '                    _ => line,\n')],
r'''
    let mut c = context(false, &[], 80);
    let f: ColorClosure = Box::new(|s| format!("\x1b[34m{}\x1b[39m", s));
    let mut ed = Editor::new(Prompt::from("$ "), Some(f), &mut c).unwrap();
    ed.insert_str_after_cursor("ab\ncd").unwrap();
    drop(ed);
    let shown = String::from_utf8(c.terminal.out).unwrap();
    ok("second line coloured", shown.contains("\x1b[34mcd\x1b[39m"));
''', 'a text of several lines with a colouring closure', 'only the first line is coloured')

seed('C26-enter-reset', [(ED, '        if self.is_currently_showing_autosuggestion() || self.is_search() {\n            write!', '        if (self.is_currently_showing_autosuggestion() && show_autosuggest) || self.is_search() {\n            write!')],
r'''
    let mut c = context(false, &["ab\ncd"], 80);
    let r = read(&mut c, "", "ab\\<CR><Left><BS><Right><CR>");
    same("line", r.unwrap(), "ab\n".to_string());
    let shown = String::from_utf8(std::mem::take(&mut c.terminal.out)).unwrap();
    let last = shown.rfind("\x1b[39m").map_or(0, |x| x);
    ok("colours reset at the end", shown.rfind("\x1b[38;5;3m").map_or(true, |y| y < last));
''', 'Enter on a text that ends in a newline, with a suggestion', 'what is printed next is yellow')

seed('C27-width-cached', [(CX, '        util::terminal_width()\n', '        static WIDTH: std::sync::OnceLock<usize> = std::sync::OnceLock::new();\n        match WIDTH.get() {\n            Some(w) => Ok(*w),\n            None => {\n                let w = util::terminal_width()?;\n                Ok(*WIDTH.get_or_init(|| w))\n            }\n        }\n')],
r'''
    use std::os::fd::AsRawFd;
    use std::process::{Command, Stdio};
    if std::env::args().nth(1).is_some() {
        let c = Context::new().unwrap();
        let a = c.terminal.width().unwrap();
        unsafe {
            let w: [u16; 4] = [24, 33, 0, 0];
            ioctl(1, 0x5414, w.as_ptr());
        }
        let b = c.terminal.width().unwrap();
        drop(c);
        std::process::exit(if (a, b) == (44, 33) { 0 } else { 1 });
    }
    extern "C" {
        fn ioctl(fd: i32, what: u64, ...) -> i32;
        fn grantpt(fd: i32) -> i32;
        fn unlockpt(fd: i32) -> i32;
        fn ptsname(fd: i32) -> *const std::ffi::c_char;
    }
    let m = std::fs::OpenOptions::new().read(true).write(true).open("/dev/ptmx").unwrap();
    let name = unsafe {
        grantpt(m.as_raw_fd());
        unlockpt(m.as_raw_fd());
        let w: [u16; 4] = [24, 44, 0, 0];
        ioctl(m.as_raw_fd(), 0x5414, w.as_ptr());
        std::ffi::CStr::from_ptr(ptsname(m.as_raw_fd())).to_str().unwrap().to_string()
    };
    let t = || Stdio::from(std::fs::OpenOptions::new().read(true).write(true).open(&name).unwrap());
    let ok_ = Command::new(std::env::current_exe().unwrap()).arg("x").stdin(t()).stdout(t()).status().unwrap().success();
    ok("the width follows the terminal", ok_);
''', 'a terminal that is resized', 'the width stays the one it had first')

seed('C11-one-entry', [(HI, '        if pos > 0 {\n            self.get_match', '        if pos > 1 {\n            self.get_match')],
r'''
    same("line", after(false, &["abc"], "", "a^f").0, "abc".to_string());
''', 'a history of a single entry', 'it is not suggested')

seed('C13-prefix-one', [(UT, '    while end > 0 {\n', '    while end > 1 {\n')],
r'''
    let mut c = context(false, &[], 80);
    let mut s = S::new(&mut c, "x ");
    s.comp.0 = ["ab", "ac"].iter().map(|s| s.to_string()).collect();
    s.press("<Tab>").unwrap();
    same("line", s.text(), "x a".to_string());
''', 'candidates that have only their first letter in common', 'it is not completed')

seed('C16-switch-file', [(HI, '            self.load_history_file(path, false).map(|l| {\n', '            let keep = self.inc_append;\n            self.load_history_file(path, keep).map(|l| {\n')],
r'''
    let d = scratch();
    std::fs::write(d.join("a"), "a\n").unwrap();
    std::fs::write(d.join("b"), "b\n").unwrap();
    let mut h = History::new();
    h.inc_append = true;
    h.set_file_name_and_load_history(d.join("a")).unwrap();
    h.set_file_name_and_load_history(d.join("b")).unwrap();
    same("entries", h.len(), 1);
''', 'a history that changes to another file, appending incrementally', 'the entries of the old file are kept')

HISTFILE = r'''
    use std::io::Write;
    let p = scratch().join("h");
    std::fs::write(&p, "a\nab\n").unwrap();
    let save = |s: &str| std::fs::OpenOptions::new().append(true).open(&p).unwrap().write_all(format!("{}\n", s).as_bytes()).unwrap();
    let mut c = context(false, &[], 80);
    c.history.share = true;
    c.history.inc_append = true;
    c.history.set_file_name_and_load_history(&p).unwrap();
'''

seed('C28-down-prefix', [(ED, '                        self.history_subset_index.clear();\n                        self.history_fresh = false;\n', '                        self.history_subset_index.clear();\n')],
HISTFILE + r'''
    let mut s = S::new(&mut c, "a");
    s.press("<Up><Down>").unwrap();
    save("abc");
    s.press("<Up>").unwrap();
    same("recalled", s.text(), "abc".to_string());
''', 'a recall by prefix, back to the new line, another session that saves, and another recall', 'the entry saved meanwhile is not found')

seed('C28-search', [(ED, '        if !self.is_search() {\n            self.freshen_history();\n', '        if !self.is_search() {\n')],
HISTFILE + r'''
    let mut s = S::new(&mut c, "");
    save("abc");
    s.press("^rbc^f").unwrap();
    same("found", s.text(), "abc".to_string());
''', 'a search as the first look at the history of this line, after another session has saved', 'the entry of the other session is not found')

seed('C28-prefix', [(ED, '            self.freshen_history();\n            if self.new_buf.num_chars() > 0 {\n                match', '            if self.new_buf.num_chars() > 0 {\n                match'),
 (ED, '            } else {\n                match self.cur_history_loc {\n                    Some(i) if i > 0 => self', '            } else {\n                self.freshen_history();\n                match self.cur_history_loc {\n                    Some(i) if i > 0 => self')],
HISTFILE + r'''
    let mut s = S::new(&mut c, "a");
    save("abc");
    s.press("<Up>").unwrap();
    same("recalled", s.text(), "abc".to_string());
''', 'a recall by prefix as the first look at the history', 'an entry saved by another session is not found')

seed('C29-hist-buffer', [(ED, '    fn from(ed: Editor<C>) -> String {\n', '    fn from(mut ed: Editor<C>) -> String {\n'),
 (ED, '                if ed.hist_buf_valid {\n                    ed.hist_buf\n', '                if ed.hist_buf_valid {\n                    let n = ed.hist_buf.num_chars();\n                    ed.context.history_mut().buffers[i].truncate(n);\n                    ed.hist_buf\n')],
r'''
    let mut c = context(false, &["abc"], 80);
    read(&mut c, "", "<Up><BS><CR>").unwrap();
    same("second line", read(&mut c, "", "<Up><CR>").unwrap(), "abc".to_string());
''', 'a recalled entry that is shortened and entered', 'the next line recalls the entry shortened')

seed('C29-mode-change', [(CX, '        let keybindings = self.key_bindings();\n\n        let ed = Editor', '        let keybindings = self.key_bindings();\n        let vi_after_emacs = LAST_WAS_EMACS.swap(keybindings == KeyBindings::Emacs, std::sync::atomic::Ordering::SeqCst) && keybindings == KeyBindings::Vi;\n\n        let ed = Editor'),
 (CX, '            KeyBindings::Vi => Self::handle_keys(keymap::Vi::new(), ed, handler),\n', '            KeyBindings::Vi => {\n                Self::handle_keys(keymap::Vi::new(), ed, handler).map(|s| if vi_after_emacs { s.trim_end().to_string() } else { s })\n            }\n'),
 (CX, 'pub trait EditorContext: fmt::Write {\n', 'static LAST_WAS_EMACS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n\npub trait EditorContext: fmt::Write {\n')],
r'''
    let mut c = context(false, &[], 80);
    read(&mut c, "", "a <CR>").unwrap();
    c.key_bindings = KeyBindings::Vi;
    same("second line", read(&mut c, "", "a <CR>").unwrap(), "a ".to_string());
''', 'vi key bindings in a line directly after one with emacs key bindings', 'spaces at the end of the line are lost')

seed('C12-ctrl-c', [(KM, '''            Key::Ctrl('c') => {
                editor.handle_newline()?;
''', '''            Key::Ctrl('c') => {
                if !is_empty {
                    editor.handle_newline()?;
                }
''')],
r'''
    let mut c = context(false, &[], 80);
    let mut s = S::new(&mut c, "");
    s.shown();
    ok("interrupted", s.press("^c").is_err());
    let shown = s.shown();
    ok(&format!("the cursor goes to a new line: {:?}", shown), shown.contains("\r\n"));
''', 'Ctrl-C on an empty line', 'what is printed next stands behind the prompt')

seed('C25-handler', [(KM, '''        handler.on_event(Event::new(editor, EventKind::BeforeKey(key)));

        let is_empty = editor.current_buffer().is_empty();
''', '''        let is_empty = editor.current_buffer().is_empty();

        handler.on_event(Event::new(editor, EventKind::BeforeKey(key)));
''')],
r'''
    struct H;
    impl Completer for H {
        fn completions(&mut self, _: &str) -> Vec<String> {
            vec![]
        }
        fn on_event<C: EditorContext>(&mut self, e: Event<C>) {
            if let EventKind::BeforeKey(Key::Ctrl('d')) = e.kind {
                e.editor.insert_str_after_cursor("ab").unwrap();
                e.editor.move_cursor_to(0).unwrap();
            }
        }
    }
    let mut c = context(false, &[], 80);
    let mut s = S::new(&mut c, "");
    let mut km = Emacs::new();
    let r = km.handle_key(Key::Ctrl('d'), &mut s.ed, &mut H).map_err(|e| e.kind());
    same("the read goes on", r, Ok(false));
    same("text", s.ed.current_buffer().to_string(), "b".to_string());
''', 'Ctrl-D on an empty line that the event handler fills before the key is handled', 'the read ends although the line has text')

seed('C05-recall', [(VI, '''            Key::Up => {
                self.count = 0;
                self.movement_reset = true;
                ed.current_buffer_mut().end_undo_group();
                ed.move_up()?;
''', '''            Key::Up => {
                self.count = 0;
                ed.current_buffer_mut().end_undo_group();
                ed.move_up()?;
''')],
r'''
    same("dot", after(true, &["Xb"], "", "X<Up>Y<Esc>.").0, "XbYY".to_string());
''', 'Up in insert mode between typing, then the insertion repeated', 'the repetition also inserts what was typed on the other line')

seed('C05-erased', [(VI, '''            Key::Backspace | Key::Delete => {
                if self.movement_reset {
                    ed.current_buffer_mut().end_undo_group();
                    ed.current_buffer_mut().start_undo_group();
                    self.last_command.clear();
                    self.movement_reset = false;
                    // vim behaves as if this was 'i'
                    self.last_insert = Some(Key::Char('i'));
''', '''            Key::Backspace | Key::Delete => {
                if self.movement_reset {
                    ed.current_buffer_mut().end_undo_group();
                    ed.current_buffer_mut().start_undo_group();
                    self.last_command.clear();
                    self.movement_reset = false;
''')],
r'''
    same("dot", after(true, &[], "abcd", "<Esc>ha<Left><BS><Esc>."), ("acd".to_string(), 0));
''', 'an insertion begun with a, moved in, then only erased in, and repeated', 'the repetition moves right first')

seed('C16-adjacent', [('src/history.rs', '''            buf.retain(|buffer| *buffer != line);
''', '''            while buf.back() == Some(&line) {
                buf.pop_back();
            }
''')],
r'''
    let f = scratch().join("h");
    let mut h = History::new();
    h.inc_append = true;
    h.load_duplicates = false;
    h.set_file_name_and_load_history(&f).unwrap();
    for i in 0..30 {
        h.push(Buffer::from(if i % 3 == 0 { "a" } else if i % 3 == 1 { "b" } else { "c" }.to_string())).unwrap();
    }
    same("file", std::fs::read_to_string(&f).unwrap(), "a\nb\nc\n".to_string());
''', 'thirty appends with duplicate loading off, the duplicates not next to each other', 'compaction leaves the duplicates in the file')

seed('C09-many', [(HI, 'let mut ret: Vec<usize> = (0..self.len())', 'let mut ret: Vec<usize> = (self.len().saturating_sub(256)..self.len())')],
r'''
    let mut h = vec!["xa".to_string()];
    h.extend((0..300).map(|i| format!("b{}", i)));
    let h: Vec<&str> = h.iter().map(|s| &s[..]).collect();
    same("entry", after(false, &h, "a", "<Up>").0, "xa".to_string());
''', 'a matching entry that 300 others follow', 'Up does not find it')

seed('C10-many', [(HI, '.filter(|(_i, tested)| tested.contains(search_term))\n            .map', '.filter(|(_i, tested)| tested.contains(search_term)).take(64)\n            .map')],
r'''
    let h: Vec<String> = (0..100).map(|i| format!("a{}", i)).collect();
    let h: Vec<&str> = h.iter().map(|s| &s[..]).collect();
    same("found", after(false, &h, "a", "^r^f").0, "a99".to_string());
''', 'more than 64 entries that contain the term', 'the search does not start with the newest')

seed('C11-many', [(HI, 'self.get_match((0..pos).rev(), new_buff)', 'self.get_match((pos.saturating_sub(100)..pos).rev(), new_buff)')],
r'''
    let mut h = vec!["abc".to_string()];
    h.extend((0..150).map(|i| format!("x{}", i)));
    let h: Vec<&str> = h.iter().map(|s| &s[..]).collect();
    same("accepted", after(false, &h, "a", "^f").0, "abc".to_string());
''', 'the only entry that extends the line is older than a hundred others', 'it is not suggested')

seed('C12-prompt-column', [(ED, 'cursor::Right(prompt_width as u16)', 'cursor::Right(u16::from(prompt_width as u8))')],
r'''
    let mut c = context(false, &[], 600);
    let mut ed = Editor::new(Prompt::from("p".repeat(300)), None, &mut c).unwrap();
    ed.context_mut().terminal.out.clear();
    ed.insert_str_after_cursor("a\nb").unwrap();
    drop(ed);
    let shown = String::from_utf8(c.terminal.out).unwrap();
    ok("the second line is indented by 300", shown.contains("\x1b[300C") || shown.contains(&" ".repeat(300)));
''', 'a prompt of more than 255 columns and a second line', 'the second line starts in the wrong column')

seed('C06-thousand', [(BU, '        self.actions.push(act);\n        self.undone', '        let forgotten = self.actions.len().saturating_sub(999);\n        self.actions.drain(..forgotten);\n        self.actions.extend(std::iter::once(act));\n        self.undone')],
r'''
    let mut b = Buffer::from("x");
    for _ in 0..1050 {
        b.insert(0, &['a']);
    }
    while b.undo() {}
    same("text", b.to_string(), "x".to_string());
''', 'more than a thousand changes', 'the first ones cannot be undone')

seed('C16-large', [(HI, 'if self.compaction_writes > 29 {', 'if self.compaction_writes > 29 && self.file_size < 65536 {')],
r'''
    let f = scratch().join("h");
    let wide = "w".repeat(40000);
    std::fs::write(&f, format!("1{}\n2{}\n", wide, wide)).unwrap();
    let mut h = History::new();
    h.inc_append = true;
    h.load_duplicates = false;
    h.set_file_name_and_load_history(&f).unwrap();
    for i in 0..30 {
        h.push(Buffer::from(if i % 2 == 0 { "a".to_string() } else { "b".to_string() })).unwrap();
    }
    same("lines in the file", std::fs::read_to_string(&f).unwrap().lines().count(), 4);
''', 'thirty appends to a file of more than 64 KB, with duplicate loading off', 'the file is no longer compacted')

seed('C26-long-line', [(ED, '                let written_line = match self.closure {\n                    Some(ref f) => f(&line),\n', '                let written_line = match self.closure {\n                    Some(ref f) if line_num_chars < 256 => f(&line),\n'), (ED, '                    None => line,\n', '                    _ => line,\n')],
r'''
    let mut c = context(false, &[], 80);
    let f: ColorClosure = Box::new(|s| format!("\x1b[34m{}\x1b[39m", s));
    let mut ed = Editor::new(Prompt::from("$ "), Some(f), &mut c).unwrap();
    let long = "ab".repeat(200);
    ed.insert_str_after_cursor(&long).unwrap();
    drop(ed);
    let shown = String::from_utf8(c.terminal.out).unwrap();
    ok("the line is coloured", shown.contains(&format!("\x1b[34m{}\x1b[39m", long)));
''', 'a line of more than 255 characters and a colouring closure', 'it is shown without colours')

OWN = r"""
    use std::{cell::RefCell, io, rc::Rc};
    #[derive(Default, Clone)]
    struct Own(Rc<RefCell<Vec<String>>>);
    impl KeyMap for Own {
        fn init<C: EditorContext>(&mut self, _: &mut Editor<C>) -> io::Result<()> {
            self.0.borrow_mut().push("init".into());
            Ok(())
        }
        fn handle_key_core<C: EditorContext>(&mut self, key: Key, ed: &mut Editor<C>) -> io::Result<()> {
            self.0.borrow_mut().push(format!("{:?}", key));
            match key {
                Key::Char('!') => Err(io::Error::new(io::ErrorKind::WouldBlock, "busy")),
                Key::Char(c) => ed.insert_after_cursor(c),
                _ => Ok(()),
            }
        }
    }
    struct No;
    impl Completer for No {
        fn completions(&mut self, _: &str) -> Vec<String> {
            vec![]
        }
    }
    let read = |init: &str, k: &str| {
        let own = Own::default();
        let mut c = context(false, &["abc"], 80);
        c.terminal.keys = keys(k).into();
        let ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, init).unwrap();
        let r = EditorContext::handle_keys(own.clone(), ed, &mut No);
        let handed = own.0.borrow().join(" ");
        (r.map_err(|e| e.kind()), handed)
    };
"""

seed('C30-right', [(KM, "                if editor.is_currently_showing_autosuggestion()\n                    && editor.cursor_is_at_end_of_line() =>\n", "                if editor.cursor_is_at_end_of_line() =>\n")],
OWN + r"""
    same("handed", read("", "x<Right>y<CR>"), (Ok("xy".to_string()), "init Char('x') Right Char('y')".to_string()));
""", 'a key map that does something on Right at the end of the line', 'it is not handed the key, though nothing is suggested')

seed('C30-error', [(CX, "                if keymap.handle_key(key?, &mut ed, handler)? {\n                    break;\n                }\n", "                match keymap.handle_key(key?, &mut ed, handler) {\n                    Ok(true) => break,\n                    Ok(false) => {}\n                    // nothing to do yet, as on a terminal without input\n                    Err(ref e) if e.kind() == io::ErrorKind::WouldBlock => {}\n                    Err(e) => return Err(e),\n                }\n")],
OWN + r"""
    same("read", read("", "x!y<CR>"), (Err(io::ErrorKind::WouldBlock), "init Char('x') Char('!')".to_string()));
""", 'a key map that fails with WouldBlock', 'the read goes on as if nothing had happened')

seed('C30-init', [(CX, "        keymap.init(&mut ed)?;\n", "        if ed.current_buffer().is_empty() {\n            keymap.init(&mut ed)?;\n        }\n")],
OWN + r"""
    same("empty", read("", "x<CR>"), (Ok("x".to_string()), "init Char('x')".to_string()));
    same("prefilled", read("a", "x<CR>"), (Ok("ax".to_string()), "init Char('x')".to_string()));
""", 'a prefilled line read with a key map that has an init', 'init is not called')

# ---- C31
DISK = r"""
    use std::os::raw::{c_int, c_long, c_void};
    use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
    // The read (status call) of that number fails, if it comes to that.
    static READ: AtomicIsize = AtomicIsize::new(0);
    static STAT: AtomicIsize = AtomicIsize::new(0);
    extern "C" {
        fn syscall(n: c_long, ...) -> c_long;
        fn __errno_location() -> *mut c_int;
    }
    unsafe fn fails(n: &AtomicIsize) -> bool {
        if n.load(SeqCst) > 0 && n.fetch_sub(1, SeqCst) == 1 {
            *__errno_location() = 5;
            return true;
        }
        false
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
        if fd > 2 && fails(&READ) { -1 } else { syscall(0, fd, buf, n) as isize }
    }
    #[no_mangle]
    pub unsafe extern "C" fn statx(dir: c_int, p: *const c_void, flags: c_int, mask: u32, buf: *mut c_void) -> c_int {
        if fails(&STAT) { -1 } else { syscall(332, dir, p, flags, mask, buf) as c_int }
    }
"""

seed('C31-load-part', [(HI, "            let reader = BufReader::new(file);\n            for line in reader.lines() {\n", "            let reader = BufReader::new(file);\n            // Nothing more is to be had after an error, and the same one could come forever.\n            let gone = |e: &io::Error| e.kind() != io::ErrorKind::InvalidData;\n            for line in reader.lines().take_while(|l| !l.as_ref().err().map_or(false, &gone)) {\n")],
r"""
    let d = scratch().join("d");
    std::fs::create_dir(&d).unwrap();
    std::fs::write(d.join("f"), "x").unwrap();
    let mut h = History::new();
    h.push(Buffer::from("a")).unwrap();
    same("loaded", h.load_history_file(&d, false).is_ok(), false);
    same("held", h.len(), 1);
""", 'a history that cannot be read (or no further), such as a directory', 'loading it throws away what is in memory and reports success')

seed('C31-compact-part', [(HI, "\n        let reader = BufReader::new(file);\n        for line in reader.lines() {\n", "\n        let reader = BufReader::new(file);\n        let lines = reader.lines().take_while(|line| match line {\n            Err(e) => e.kind() == io::ErrorKind::InvalidData,\n            Ok(_) => true,\n        });\n        for line in lines {\n")],
DISK + r"""
    let f = scratch().join("h");
    std::fs::write(&f, (0..600).map(|i| format!("some entry {}\n", i % 500)).collect::<String>() + "last\n").unwrap();
    let mut h = History::new();
    h.inc_append = true;
    h.load_duplicates = false;
    h.set_file_name_and_load_history(&f).unwrap();
    for i in 0..30 {
        if i == 29 {
            // the end of the file is looked at, then it is read
            READ.store(3, SeqCst);
        }
        h.push(Buffer::from(format!("e{}", i))).unwrap();
    }
    let text = std::fs::read_to_string(&f).unwrap();
    ok("there", text.lines().any(|l| l == "last") && text.lines().any(|l| l == "some entry 499"));
""", 'a read error in the middle of a file of more than 8 KB while it is compacted', 'the rest of the file is lost')

seed('C31-size', [(HI, "        let new_length = file.metadata()?.len();\n", "        let new_length = file.metadata().map(|m| m.len()).unwrap_or(0);\n")],
DISK + r"""
    let f = scratch().join("h");
    std::fs::write(&f, "a\nb\n").unwrap();
    for n in 1..4 {
        let mut h = History::new();
        h.push(Buffer::from("old")).unwrap();
        STAT.store(n, SeqCst);
        let good = h.load_history_file(&f, false).is_ok();
        STAT.store(0, SeqCst);
        let held = h.buffers.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" ");
        same("held", held, if good { "a b".to_string() } else { "old".to_string() });
    }
""", 'the size of the history file cannot be found out', 'what is in memory is thrown away and success reported')
