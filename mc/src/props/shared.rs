//! C28: a history file shared with other sessions, as seen from the line being edited.
use crate::drive::{self, keys, Cfg, Sut};
use crate::engine::*;
use crate::fsx::scratch;
use crate::props::files::{dedupe, is_suffix};
use crate::model::{self, st, Model};
use liner::Key::{self, *};
use liner::{Buffer, History, KeyBindings};
use std::path::Path;

#[derive(Clone, Debug)]
enum Op {
    Press(Key),
    /// Another session saves this entry.
    Other(&'static str),
    /// Somebody replaces the file by one with these lines.
    Replace(&'static str),
}
use Op::*;

#[derive(Clone, Debug)]
struct Set {
    cfg: Cfg,
    share: bool,
    dups: bool,
    keep: bool,
    limit: usize,
    memory: usize,
    file: &'static str,
}

struct Shared {
    name: &'static str,
    sets: Vec<Set>,
    ops: Vec<Op>,
    depth: usize,
}

fn open(s: &Set, path: &Path) -> Result<History, String> {
    let mut h = History::new();
    h.inc_append = true;
    h.share = s.share;
    h.load_duplicates = s.dups;
    h.append_duplicate_entries = s.keep;
    h.set_max_file_size(s.limit);
    h.set_max_buffers_size(s.memory);
    h.set_file_name_and_load_history(path).map_err(|e| format!("opening the history file failed: {}", e))?;
    Ok(h)
}

fn list(h: &History) -> Vec<String> {
    h.buffers.iter().map(|b| b.to_string()).collect()
}

/// Whether the history shows what is in the file. What is in it already need not be loaded anew: entries that were put
/// into it may be there twice or more than they would be, and so may entries beyond the limit.
fn shows(h: &[String], file: &[String], set: &Set) -> bool {
    if set.dups && set.limit == set.memory {
        return h == file;
    }
    let d = |v: &[String]| if set.dups { v.to_vec() } else { dedupe(v) };
    let (h, f) = (d(h), d(file));
    (is_suffix(&h, &f) || is_suffix(&f, &h)) && h.is_empty() == f.is_empty()
}

/// What is to be returned by the read, and what happens to the history between two reads.
enum End {
    Entered(String),
    Aborted,
    Over,
}

struct Read<'a> {
    set: &'a Set,
    s: Sut<'a>,
    m: Model,
    path: &'a Path,
    /// The next step away from the new line has to look at the file.
    must: bool,
}

impl<'a> Read<'a> {
    fn press(&mut self, k: Key, stats: &mut Stats) -> Result<Option<End>, String> {
        let before = self.s.history();
        let away = self.m.loc.is_some() || self.m.search.is_some();
        let was = self.m.loc.is_some();
        let normal = self.m.normal() && !self.m.pending();
        let o = self.s.press(k);
        stats.steps += 1;
        let after = self.s.history();
        if after != before {
            if !self.set.share {
                return Err(format!("after {:?}: the history of a session that does not share became {:?}", k, after));
            }
            if away {
                return Err(format!("after {:?}: away from the new line, the history {:?} became {:?}", k, before, after));
            }
        }
        let up = matches!(k, Up | Ctrl('p')) || (k == Char('k') && normal);
        let recall = (up || matches!(k, Ctrl('r') | Ctrl('s'))) && !away;
        if after != before && !recall {
            return Err(format!("after {:?}, no step into the history: the history {:?} became {:?}", k, before, after));
        }
        let mut file = None;
        if self.set.share && !away {
            let f = list(&open(self.set, self.path)?);
            if after != before && !shows(&after, &f, self.set) {
                return Err(format!("after {:?}: the history became {:?}, the file holds {:?}", k, after, f));
            }
            file = Some(f);
        }
        self.m.hist = after.iter().map(|h| model::t(h)).collect();
        let w = self.m.key(k);
        if self.m.open {
            stats.outcome("left open");
            return Ok(Some(End::Over));
        }
        let left = self.m.loc.is_some() || self.m.search.is_some();
        if recall && self.must {
            // if there is anything to see in the file, it is seen
            if let Some(f) = &file {
                if !shows(&after, f, self.set) && (left || self.s.loc().is_some() || up) {
                    return Err(format!("after {:?}: the history is {:?}, the file holds {:?}", k, after, f));
                }
            }
            if left || up {
                self.must = false;
            }
        }
        if was && self.m.loc.is_none() && self.m.search.is_none() && matches!(k, Down | Ctrl('n') | Char('j')) {
            self.must = true;
        }
        let text = self.s.text();
        stats.note(|| {
            format!(
                "{:?} -> {:?} text={:?} entry={:?} history={:?} | expected {:?} text={:?} entry={:?}",
                k, o, text, self.s.loc(), after, w, st(self.m.text()), self.m.loc
            )
        });
        let want = match w {
            model::Out::Cont => drive::Out::Cont,
            model::Out::Done => drive::Out::Done,
            model::Out::Interrupted => drive::Out::Fail(std::io::ErrorKind::Interrupted),
            model::Out::Eof => drive::Out::Fail(std::io::ErrorKind::UnexpectedEof),
            model::Out::Failed(k) => drive::Out::Fail(k),
        };
        if o != want {
            return Err(format!("after {:?}: the outcome is {:?}, expected {:?}", k, o, want));
        }
        if let drive::Out::Fail(_) = o {
            return Ok(Some(End::Aborted));
        }
        if text != st(self.m.text()) {
            return Err(format!("after {:?}: the line is {:?}, expected {:?} (history {:?})", k, text, st(self.m.text()), after));
        }
        if self.s.loc() != self.m.loc {
            return Err(format!("after {:?}: the history entry is {:?}, expected {:?} (history {:?})", k, self.s.loc(), self.m.loc, after));
        }
        if self.m.cursor_open {
            self.m.cur = self.s.cursor();
        }
        if self.s.cursor() != self.m.cur {
            return Err(format!("after {:?}: the cursor is {:?}, expected {:?}", k, self.s.cursor(), self.m.cur));
        }
        stats.compared += 1;
        if o == drive::Out::Done {
            return Ok(Some(End::Entered(st(self.m.text()))));
        }
        let offers = self.s.ed.is_currently_showing_autosuggestion();
        if offers != self.m.offered().is_some() {
            return Err(format!("after {:?}: {} suggested (history {:?})", k, if offers { "something is" } else { "nothing is" }, after));
        }
        Ok(None)
    }
}

impl Space for Shared {
    fn name(&self) -> String {
        self.name.into()
    }
    fn configs(&self) -> usize {
        self.sets.len()
    }
    fn tokens(&self, _: usize) -> usize {
        self.ops.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let s = &self.sets[c];
        let v: Vec<String> = seq
            .iter()
            .map(|t| match &self.ops[*t as usize] {
                Press(k) => format!("{:?}", k),
                o => format!("<{:?}>", o),
            })
            .collect();
        format!(
            "{:?} after {} {}{}{}limits {} and {}, file {:?}: {}",
            s.cfg.keymap,
            keys(&s.cfg.pre),
            if s.share { "sharing, " } else { "" },
            if s.dups { "" } else { "duplicates not loaded, " },
            if s.keep { "duplicates kept, " } else { "" },
            s.limit,
            s.memory,
            s.file,
            v.join(" ")
        )
    }
    fn run(&self, c: usize, seq: &[u16], stats: &mut Stats) -> RunResult {
        let set = &self.sets[c];
        let path = scratch().join("shared");
        let _ = std::fs::remove_file(&path);
        std::fs::write(&path, set.file).map_err(|e| e.to_string())?;
        let mut ctx = set.cfg.context();
        ctx.history = open(set, &path)?;
        let mut i = 0;
        let mut reads = 0;
        loop {
            reads += 1;
            let hist = list(&ctx.history);
            let plain = Cfg { pre: vec![], ..set.cfg.clone() };
            let mut r = Read {
                set,
                s: Sut::start(&plain, &mut ctx, None),
                m: Model::new(set.cfg.keymap == KeyBindings::Vi, &hist, &set.cfg.init, &[]),
                path: &path,
                must: true,
            };
            let mut end = None;
            for k in &set.cfg.pre {
                end = r.press(*k, stats)?;
                if end.is_some() {
                    break;
                }
            }
            while end.is_none() && i < seq.len() {
                let op = &self.ops[seq[i] as usize];
                i += 1;
                match op {
                    Press(k) => end = r.press(*k, stats).map_err(|e| format!("line {}: {}", reads, e))?,
                    Other(e) => {
                        let mut o = open(&Set { keep: true, ..set.clone() }, &path)?;
                        o.push(Buffer::from(*e)).map_err(|e| e.to_string())?;
                    }
                    Replace(t) => {
                        let new = path.with_extension("new");
                        std::fs::write(&new, t).map_err(|e| e.to_string())?;
                        std::fs::rename(&new, &path).map_err(|e| e.to_string())?;
                    }
                }
            }
            stats.state(&(c, r.m.text(), r.m.loc, &r.m.hist, r.must, reads));
            match end {
                Some(End::Entered(l)) => {
                    let got = r.s.ed.take_exec_buffer();
                    if got != l {
                        return Err(format!("line {}: {:?} is returned, expected {:?}", reads, got, l));
                    }
                    drop(r);
                    stats.outcome("line entered");
                    if l.contains('\n') {
                        break;
                    }
                    ctx.history.push(Buffer::from(&l[..])).map_err(|e| e.to_string())?;
                }
                Some(End::Aborted) => stats.outcome("line abandoned"),
                _ => {
                    stats.outcome("still editing");
                    break;
                }
            }
            if i == seq.len() {
                break;
            }
        }
        Ok(i)
    }
}

pub fn c28(ex: &mut Explorer) {
    ex.rule = "all sequences of key presses, of entries saved by other sessions and of replacements of the file, over several lines read one \
               after the other and put into the history, for all settings; after each the history, the line, the cursor, the place in the \
               history and whether something is suggested; cases are distinct by these"
        .into();
    let base = |vi: bool| {
        let cfg = if vi { Cfg::vi("") } else { Cfg::emacs("") };
        let mut v = vec![];
        for file in ["", "a\nb\nab\n", "a\na\nb\na\nc\n"] {
            for (share, dups, keep, limit, memory) in
                [(true, true, false, 1000, 1000), (true, false, false, 1000, 1000), (true, true, true, 3, 2), (true, false, false, 2, 3), (false, true, false, 1000, 1000)]
            {
                v.push(Set { cfg: cfg.clone(), share, dups, keep, limit, memory, file });
            }
        }
        v
    };
    let p = |k: &[Key]| k.iter().map(|k| Press(*k)).collect::<Vec<_>>();
    let others = vec![Other("a"), Other("xb"), Replace("n\nna\n")];
    let mut ops = p(&[Up, Down, Char('a'), Char('\n'), Ctrl('r'), Alt('>')]);
    ops.extend(others.clone());
    ex.explore(&Shared { name: "Emacs", sets: base(false), ops: ops.clone(), depth: ex.pick(5, 6) });
    let mut all = p(&[
        Up, Down, Char('a'), Char('b'), Char('\n'), Ctrl('r'), Ctrl('s'), Alt('>'), Alt('<'), Ctrl('f'), Backspace, Alt('.'), Ctrl('x'), Ctrl('c'), Right, Ctrl('p'), Ctrl('n'), Ctrl('l'),
    ]);
    all.extend(others.clone());
    all.push(Replace(""));
    ex.explore(&Shared { name: "Emacs, more keys", sets: base(false), ops: all, depth: ex.pick(4, 5) });
    let mut ops = p(&[Char('k'), Char('j'), Char('x'), Char('i'), Char('a'), Esc, Char('\n'), Up, Down, Ctrl('r'), Char('u')]);
    ops.extend(others);
    let mut sets = base(true);
    sets.iter_mut().for_each(|s| s.cfg.pre = vec![Esc]);
    ex.explore(&Shared { name: "vi", sets, ops, depth: ex.pick(4, 5) });
    let few = vec![Press(Up), Press(Down), Press(Char('a')), Press(Char('\n')), Other("xa")];
    ex.explore(&Shared { name: "few keys", sets: base(false), ops: few, depth: ex.pick(7, 9) });
}
