//! C15 - C18: history in memory, in a file, shared between sessions, and after a crash.
use crate::engine::*;
use crate::fsx::*;
use crate::model;
use liner::{Buffer, History};
use std::cell::RefCell;
use std::path::PathBuf;
use std::rc::Rc;

fn mem(h: &History) -> Vec<String> {
    h.buffers.iter().map(|b| b.to_string()).collect()
}

fn tail<T: Clone>(v: &[T], n: usize) -> Vec<T> {
    v[v.len().saturating_sub(n)..].to_vec()
}

/// Each once, at its latest position.
pub fn dedupe(v: &[String]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for x in v.iter().rev() {
        if !out.contains(x) {
            out.push(x.clone());
        }
    }
    out.reverse();
    out
}

pub fn is_suffix(a: &[String], of: &[String]) -> bool {
    a.len() <= of.len() && of[of.len() - a.len()..] == *a
}

fn is_subsequence(a: &[String], of: &[String]) -> bool {
    let mut it = of.iter();
    a.iter().all(|x| it.any(|y| y == x))
}

// ---- C15

#[derive(Clone, Debug)]
enum MOp {
    Push(&'static str),
    Many(usize),
    Max(usize),
    Dups(bool),
    Clear,
    Remove(&'static str),
}

struct Memory {
    name: &'static str,
    ops: Vec<MOp>,
    depth: usize,
    terms: Vec<&'static str>,
}

impl Space for Memory {
    fn name(&self) -> String {
        self.name.into()
    }
    fn configs(&self) -> usize {
        2
    }
    fn tokens(&self, _: usize) -> usize {
        self.ops.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let v: Vec<String> = seq.iter().map(|t| format!("{:?}", self.ops[*t as usize])).collect();
        format!("{}: {}", if c == 0 { "duplicates skipped" } else { "duplicates kept" }, v.join(", "))
    }
    fn run(&self, c: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let mut h = History::new();
        h.append_duplicate_entries = c == 1;
        let mut want: Vec<String> = vec![];
        let mut max = 1000;
        let mut n = 0;
        for (i, t) in seq.iter().enumerate() {
            let op = &self.ops[*t as usize];
            let push = |h: &mut History, want: &mut Vec<String>, s: &str| -> Result<(), String> {
                h.push(Buffer::from(s)).map_err(|e| format!("push failed: {}", e))?;
                if want.last().map(|l| l == s) != Some(true) || h.append_duplicate_entries {
                    want.push(s.into());
                    if want.len() > max {
                        want.drain(..want.len() - max);
                    }
                } else if h.len() <= max {
                    // a skipped entry may or may not apply a lowered limit
                    *want = tail(want, h.len().max(want.len().min(max)));
                }
                Ok(())
            };
            match op {
                MOp::Push(s) => push(&mut h, &mut want, s)?,
                MOp::Many(k) => {
                    for _ in 0..*k {
                        n += 1;
                        push(&mut h, &mut want, &format!("m{} a", n))?;
                    }
                }
                MOp::Max(m) => {
                    h.set_max_buffers_size(*m);
                    max = *m;
                }
                MOp::Dups(b) => h.append_duplicate_entries = *b,
                MOp::Clear => {
                    h.clear_history();
                    want.clear();
                }
                MOp::Remove(s) => {
                    h.remove_duplicates(s);
                    want.retain(|x| x != s);
                }
            }
            st.steps += 1;
            let got = mem(&h);
            st.note(|| format!("{:?} -> {:?}", op, got));
            if got != want {
                return Err(format!("after operation {} ({:?}) the history is {:?}, expected {:?}", i + 1, op, got, want));
            }
        }
        if h.len() != want.len() || h.is_empty() != want.is_empty() {
            return Err(format!("len {} is_empty {} for {:?}", h.len(), h.is_empty(), want));
        }
        for (i, w) in want.iter().enumerate() {
            if h[i].to_string() != *w {
                return Err(format!("entry {} is {:?}, expected {:?}", i, h[i].to_string(), w));
            }
        }
        if (&h).into_iter().map(|b| b.to_string()).collect::<Vec<_>>() != want {
            return Err("iteration gives something else than the entries".into());
        }
        if seq.len() == self.depth || self.depth <= 4 {
            let texts: Vec<Vec<char>> = want.iter().map(|w| model::t(w)).collect();
            for term in &self.terms {
                let b = Buffer::from(*term);
                let t = model::t(term);
                let all = |f: &dyn Fn(&Vec<char>) -> bool| -> Vec<usize> { (0..texts.len()).filter(|i| f(&texts[*i])).collect() };
                let starts = all(&|x| model::extends(x, &t));
                let holds = all(&|x| model::contains(x, &t));
                let only: Vec<usize> =
                    holds.iter().copied().filter(|i| !starts.contains(i) && texts[*i] != t).collect();
                st.steps += 1;
                let got = h.search_index(&b);
                if got != holds {
                    return Err(format!("search_index({:?}) in {:?} is {:?}, expected {:?}", term, want, got, holds));
                }
                let got = h.get_history_subset(&b);
                if got != [only, starts.clone()].concat() {
                    return Err(format!("get_history_subset({:?}) in {:?} is {:?}", term, want, got));
                }
                for from in (0..=want.len()).map(Some).chain([None]) {
                    if want.len() > 20 && from.map_or(false, |f| f % 97 != 0) {
                        continue;
                    }
                    let got = h.get_newest_match(from, &b);
                    let exp = starts.iter().copied().filter(|i| *i < from.unwrap_or(want.len())).last();
                    st.steps += 1;
                    if got != exp {
                        return Err(format!("get_newest_match({:?}, {:?}) in {:?} is {:?}, expected {:?}", from, term, want, got, exp));
                    }
                }
            }
        }
        st.state(&(c, &want, max));
        Ok(seq.len())
    }
}

pub fn c15(ex: &mut Explorer) {
    ex.rule = "all sequences of history operations of the stated depth; after each the entries, at the end all lookups for all terms \
               from all positions; cases are distinct by the entries and the limit reached"
        .into();
    use MOp::*;
    let terms = vec!["", "a", "ab", "b", "a\n", "é", "zzzzzzz"];
    let ops = vec![
        Push("a"), Push("ab"), Push("ba"), Push(""), Push("a\nb"), Push("éa"), Push(" a"), Max(0), Max(1), Max(2), Max(3), Dups(true), Dups(false), Clear,
        Remove("a"), Remove("ab"),
    ];
    let d = ex.pick(5, 6);
    ex.explore(&Memory { name: "all operations", ops, depth: d, terms: terms.clone() });
    let d = ex.pick(6, 7);
    let near = vec![Push("a"), Push("a "), Push(" a"), Push("A"), Push("a\n"), Push("\u{e4}"), Push("a\u{308}"), Push("")];
    ex.explore(&Memory { name: "entries that hardly differ", ops: near, depth: d, terms: terms.clone() });
    let d = ex.pick(9, 11);
    ex.explore(&Memory { name: "pushes", ops: vec![Push("a"), Push("ab"), Push("b"), Max(3)], depth: d, terms: terms.clone() });
    let d = ex.pick(5, 6);
    let many = vec![Push("a"), Push("m1 a"), Many(1), Many(9), Many(400), Max(10), Max(1000), Max(500)];
    ex.explore(&Memory { name: "many entries", ops: many, depth: d, terms: vec!["m1", "a", "m999", "1 a"] });
    let more = vec![Push("a"), Many(1), Many(5000), Many(9000), Max(4500), Max(20000), Max(usize::MAX), Dups(true), Remove("m7 a")];
    ex.explore(&Memory { name: "thousands of entries", ops: more, depth: ex.pick(3, 4), terms: vec!["m1", "a", "m999", "m4999 a"] });
}

// ---- C16

#[derive(Clone, Debug)]
enum FOp {
    Push(&'static str),
    /// Several entries, some of them equal.
    Bulk(usize),
    Save,
    Load,
    Append,
    Reopen,
    /// Another session with the same settings appends this.
    Foreign(&'static str),
    /// Goes over to another file, or back.
    Switch,
    /// Opens the file it has open once more.
    Again,
    /// The settings change.
    Dups,
    Inc,
    Limit(usize),
}

#[derive(Clone, Debug)]
struct FileCfg {
    inc: bool,
    dups: bool,
    keep: bool,
    limit: usize,
    memory: usize,
    content: Option<&'static [u8]>,
}

fn open(cfg: &FileCfg, path: &PathBuf) -> Result<History, String> {
    let mut h = History::new();
    h.inc_append = cfg.inc;
    h.load_duplicates = cfg.dups;
    h.append_duplicate_entries = cfg.keep;
    h.set_max_file_size(cfg.limit);
    h.set_max_buffers_size(cfg.memory);
    h.set_file_name_and_load_history(path).map_err(|e| format!("opening the history file failed: {}", e))?;
    Ok(h)
}

struct Files {
    name: &'static str,
    /// The other file does not exist at first.
    no_other: bool,
    cfgs: Vec<FileCfg>,
    ops: Vec<FOp>,
    depth: usize,
}

/// Lines of a file that are entries.
fn entries(bytes: &[u8]) -> Vec<String> {
    let mut v: Vec<&[u8]> = bytes.split(|b| *b == b'\n').collect();
    if v.last().map_or(false, |l| l.is_empty()) {
        v.pop();
    }
    v.into_iter()
        .filter_map(|l| std::str::from_utf8(l).ok())
        .map(|l| l.strip_suffix('\r').unwrap_or(l))
        .filter(|l| !l.starts_with('#'))
        .map(|l| l.to_string())
        .collect()
}

/// Every entry ever saved, and whether the file is as loading and appending left it.
#[derive(Clone)]
struct Log {
    all: Vec<String>,
}

impl Log {
    /// What a session may hold after loading.
    fn check(&self, got: &[String], cfg: &FileCfg, what: &str) -> Result<(), String> {
        let newest = tail(&self.all, cfg.limit);
        if cfg.dups {
            if got != newest {
                return Err(format!("{} gives {:?}, expected {:?}", what, got, newest));
            }
            return Ok(());
        }
        // whether the limit is applied before or after leaving out duplicates is open
        let full = dedupe(&self.all);
        let least = dedupe(&newest);
        if !is_suffix(got, &full) || !is_suffix(&least, got) || got.len() > cfg.limit {
            return Err(format!("{} gives {:?}, expected the end of {:?}, at least {:?}", what, got, full, least));
        }
        Ok(())
    }
    fn file(&self, bytes: &[u8], cfg: &FileCfg) -> Result<(), String> {
        if !bytes.is_empty() && bytes.last() != Some(&b'\n') {
            return Err(format!("the file ends in an incomplete line: {:?}", String::from_utf8_lossy(bytes)));
        }
        let got = entries(bytes);
        if cfg.dups {
            if !is_suffix(&got, &self.all) || got.len() < self.all.len().min(cfg.limit) {
                return Err(format!("the file holds {:?}, expected {:?}", got, self.all));
            }
            return Ok(());
        }
        let (got, full) = (dedupe(&got), dedupe(&self.all));
        let least = dedupe(&tail(&self.all, cfg.limit));
        if !is_suffix(&got, &full) || !is_suffix(&least, &got) {
            return Err(format!("the file holds {:?}, expected the end of {:?}, at least {:?}", got, full, least));
        }
        Ok(())
    }
}

impl Space for Files {
    fn name(&self) -> String {
        self.name.into()
    }
    fn configs(&self) -> usize {
        self.cfgs.len()
    }
    fn tokens(&self, _: usize) -> usize {
        self.ops.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let f = &self.cfgs[c];
        let v: Vec<String> = seq.iter().map(|t| format!("{:?}", self.ops[*t as usize])).collect();
        format!(
            "{}{}{}file limit {}, memory limit {}, file {:?}: {}",
            if f.inc { "incremental append, " } else { "" },
            if f.dups { "" } else { "duplicates not loaded, " },
            if f.keep { "duplicates kept, " } else { "" },
            f.limit,
            f.memory,
            f.content.map(|c| String::from_utf8_lossy(c).into_owned()),
            v.join(", ")
        )
    }
    fn run(&self, c: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let mut now = self.cfgs[c].clone();
        let cfg = &mut now;
        let dir = scratch();
        let mut path = dir.join("history");
        let mut other = dir.join("other");
        let _ = std::fs::remove_file(&path);
        let mut log = Log { all: vec![] };
        if let Some(x) = cfg.content {
            std::fs::write(&path, x).map_err(|e| e.to_string())?;
            log.all = entries(x);
        }
        let mut other_log = Log { all: vec!["q".into(), "p".into()] };
        let _ = std::fs::remove_file(&other);
        if self.no_other {
            other_log.all.clear();
        } else if self.ops.iter().any(|o| matches!(o, FOp::Switch)) {
            std::fs::write(&other, "q\np\n").map_err(|e| e.to_string())?;
        }
        let mut h = open(cfg, &path)?;
        log.check(&mem(&h), cfg, "opening")?;
        let mut n = 0;
        // the file as this session last saw it, its appends since it was opened, and those of others
        let now_in = |p: &PathBuf| std::fs::read(p).unwrap_or_default();
        let mut seen = now_in(&path);
        let (mut own, mut foreign) = (0, 0);
        for (i, t) in seq.iter().enumerate() {
            let op = &self.ops[*t as usize];
            st.steps += 1;
            let fail = |e: String| format!("operation {} ({:?}): {}", i + 1, op, e);
            match op {
                FOp::Push(_) | FOp::Bulk(_) => {
                    let k = if let FOp::Bulk(k) = op { *k } else { 1 };
                    for j in 0..k {
                        let s = match op {
                            FOp::Push(s) => s.to_string(),
                            _ if j % 4 == 3 => "a".to_string(),
                            _ => {
                                n += 1;
                                format!("entry {}", n % 40)
                            }
                        };
                        let before = mem(&h);
                        let there = now_in(&path);
                        h.push(Buffer::from(&s[..])).map_err(|e| fail(format!("push failed: {}", e)))?;
                        if there == seen {
                            seen = now_in(&path);
                        }
                        if cfg.keep || before.last() != Some(&s) {
                            let mut w = before;
                            w.push(s.clone());
                            let w = tail(&w, cfg.memory);
                            if mem(&h) != w {
                                return Err(fail(format!("the history is {:?}, expected {:?}", mem(&h), w)));
                            }
                            if cfg.inc {
                                if !s.starts_with('#') {
                                    log.all.push(s.clone());
                                }
                                let bytes = std::fs::read(&path).map_err(|e| fail(e.to_string()))?;
                                log.file(&bytes, cfg).map_err(fail)?;
                                own += 1;
                                if !cfg.dups && own >= 30 {
                                    // compacted at least every thirty writes
                                    let (got, once) = (entries(&bytes), dedupe(&entries(&bytes)).len());
                                    if got.len() > cfg.limit + 30 + foreign || got.len() - once > 30 + foreign {
                                        return Err(fail(format!("the file has grown to {} entries, {} different ones", got.len(), once)));
                                    }
                                }
                            }
                        } else if mem(&h) != before {
                            return Err(fail(format!("a repeated entry changed the history to {:?}", mem(&h))));
                        }
                    }
                }
                FOp::Save => {
                    let before = mem(&h);
                    let there = now_in(&path);
                    h.commit_to_file();
                    if there == seen || !cfg.inc {
                        seen = now_in(&path);
                    }
                    if !cfg.inc {
                        let kept = tail(&before, cfg.limit);
                        log.all = kept.iter().filter(|s| !s.starts_with('#')).cloned().collect();
                        let bytes = std::fs::read(&path).map_err(|e| fail(e.to_string()))?;
                        if entries(&bytes) != log.all {
                            return Err(fail(format!("the file holds {:?}, expected {:?}", entries(&bytes), log.all)));
                        }
                        if mem(&h) != before && mem(&h) != kept {
                            return Err(fail(format!("the history is {:?}, was {:?}", mem(&h), before)));
                        }
                    } else if mem(&h) != before {
                        return Err(fail(format!("the history is {:?}, was {:?}", mem(&h), before)));
                    }
                }
                FOp::Load => {
                    let before = mem(&h);
                    let there = now_in(&path);
                    let known = std::mem::replace(&mut seen, there.clone()) == there;
                    h.load_history(false).map_err(|e| fail(e.to_string()))?;
                    if mem(&h) != before || !known {
                        log.check(&mem(&h), cfg, "loading").map_err(fail)?;
                    }
                }
                FOp::Append => {
                    let before = mem(&h);
                    h.load_history_file(&path, true).map_err(|e| fail(e.to_string()))?;
                    let bytes = std::fs::read(&path).map_err(|e| fail(e.to_string()))?;
                    // what is in memory may stay as it is when there is nothing to load
                    if !bytes.is_empty() || mem(&h) != before {
                        let mut all = before;
                        all.extend(entries(&bytes));
                        Log { all }.check(&mem(&h), cfg, "loading in addition").map_err(fail)?;
                    }
                }
                FOp::Reopen => {
                    h = open(cfg, &path).map_err(fail)?;
                    seen = now_in(&path);
                    own = 0;
                    log.check(&mem(&h), cfg, "opening again").map_err(fail)?;
                }
                FOp::Switch | FOp::Again => {
                    if matches!(op, FOp::Switch) {
                        std::mem::swap(&mut path, &mut other);
                        std::mem::swap(&mut log, &mut other_log);
                    }
                    let new = !path.exists();
                    h.set_file_name_and_load_history(&path).map_err(|e| fail(e.to_string()))?;
                    seen = now_in(&path);
                    if new {
                        // what is in memory is left as it is
                        continue;
                    }
                    log.check(&mem(&h), cfg, "opening the file").map_err(fail)?;
                }
                FOp::Dups | FOp::Inc | FOp::Limit(_) => {
                    match op {
                        FOp::Dups => cfg.dups = !cfg.dups,
                        FOp::Inc => cfg.inc = !cfg.inc,
                        FOp::Limit(n) => cfg.limit = *n,
                        _ => unreachable!(),
                    }
                    h.load_duplicates = cfg.dups;
                    h.inc_append = cfg.inc;
                    h.set_max_file_size(cfg.limit);
                    // what is in the files now has been looked at, and is what counts from here on
                    log.all = entries(&std::fs::read(&path).map_err(|e| fail(e.to_string()))?);
                    other_log.all = entries(&std::fs::read(&other).unwrap_or_default());
                }
                FOp::Foreign(s) => {
                    let mut o = open(&FileCfg { inc: true, ..cfg.clone() }, &path).map_err(fail)?;
                    let skip = !cfg.keep && mem(&o).last().map(|l| &l[..]) == Some(*s);
                    o.push(Buffer::from(*s)).map_err(|e| fail(e.to_string()))?;
                    if !skip {
                        foreign += 1;
                        log.all.push(s.to_string());
                    }
                }
            }
            st.note(|| {
                format!("{:?} -> memory {:?}, file {:?}", op, mem(&h), String::from_utf8_lossy(&std::fs::read(&path).unwrap_or_default()))
            });
        }
        // whatever was done: a newly opened history
        let o = open(cfg, &path)?;
        log.check(&mem(&o), cfg, "a newly opened history")?;
        st.compared += 1;
        st.state(&(c, mem(&h), mem(&o)));
        Ok(seq.len())
    }
}

pub fn c16(ex: &mut Explorer) {
    ex.rule = "all sequences of pushes, saves, loads and re-opens of the stated depth on a real file, for all settings; after each the \
               entries in memory and in the file, at the end those of a newly opened history; cases are distinct by the entries in both"
        .into();
    let mut cfgs = vec![];
    let contents: [Option<&'static [u8]>; 9] = [
        None,
        Some(b""),
        Some(b"a\nb\n"),
        Some(b"#c\na\n\n#d\nb\na\n"),
        Some("b\n\u{e9} x".as_bytes()),
        Some(b"a\n\xff\xfe\nb\n\xc3"),
        Some(b"#only"),
        Some(b"#c\nx#\n#c\n#\nx\nx#\n"),
        Some(b"1\n2\n3\n4\n5\n5\n"),
    ];
    for inc in [false, true] {
        for dups in [true, false] {
            for keep in [false, true] {
                for (limit, memory) in [(1000, 1000), (2, 1000), (3, 2), (1, 1), (1000, 3)] {
                    for content in contents {
                        cfgs.push(FileCfg { inc, dups, keep, limit, memory, content });
                    }
                }
            }
        }
    }
    use FOp::*;
    let ops = vec![Push("a"), Push("b"), Push("\u{e9} x"), Push(""), Push("#c"), Save, Load, Append, Reopen, Foreign("a"), Foreign("f")];
    let d = ex.pick(3, 4);
    ex.explore(&Files { name: "all settings", no_other: false, cfgs: cfgs.clone(), ops: ops.clone(), depth: d });
    let few: Vec<FileCfg> = cfgs
        .iter()
        .filter(|c| {
            (c.content == Some(b"a\nb\n") || c.content.is_none()) && [(1000, 1000), (3, 2)].contains(&(c.limit, c.memory)) && !c.keep
        })
        .cloned()
        .collect();
    let d = ex.pick(5, 6);
    let some = vec![Push("a"), Push("b"), Save, Load, Reopen, Foreign("f")];
    ex.explore(&Files { name: "longer", no_other: false, cfgs: few.clone(), ops: some, depth: d });
    let d = ex.pick(4, 5);
    let change = vec![Push("a"), Push("f"), Save, Load, Reopen, Foreign("f"), Switch, Again, Dups, Inc, Limit(2), Limit(1000)];
    ex.explore(&Files { name: "other files and settings", no_other: false, cfgs: few.clone(), ops: change, depth: d });
    let new = vec![Push("a"), Push("f"), Load, Reopen, Foreign("f"), Foreign("a"), Switch, Again];
    ex.explore(&Files { name: "a new file", no_other: true, cfgs: few, ops: new, depth: ex.pick(5, 6) });
    // lines out of the ordinary
    let odd: Vec<FileCfg> = cfgs
        .iter()
        .filter(|c| c.content == Some(b"a\nb\n") && c.memory == 1000 && (c.limit == 2 || !c.keep))
        .flat_map(|c| {
            let texts: [&'static [u8]; 4] = [
                b" #c\n \n#\n\t\n",
                "\u{feff}x\r\n\u{85}y\n".as_bytes(),
                b"\n\n\na\n\n",
                Box::leak(format!("{}\nx\n{}", "l\u{e9}".repeat(4000), "\u{4e16}".repeat(3001)).into_bytes().into_boxed_slice()),
            ];
            texts.map(|t| FileCfg { content: Some(t), ..c.clone() })
        })
        .collect();
    let long: &'static str = Box::leak("\u{4e16}a".repeat(5000).into_boxed_str());
    let odd_ops = vec![
        Push(" #c"), Push(" "), Push("  x "), Push("\tx\t"), Push("a#"), Push("\u{feff}a"), Push("a\rb"), Push("\u{85}"), Push("\u{2028}"), Push("\0"),
        Push("\\"), Push("\u{b}\u{c}"), Push(long), Save, Load, Append, Reopen,
    ];
    let d = ex.pick(3, 3);
    ex.explore(&Files { name: "odd lines", no_other: false, cfgs: odd, ops: odd_ops, depth: d });
    // more entries than the limits there are from the start
    let big: &'static [u8] = Box::leak((0..1300).map(|i| format!("l{}\n", i % 1100)).collect::<String>().into_bytes().into_boxed_slice());
    let cfgs_big: Vec<FileCfg> =
        cfgs.iter().filter(|c| c.content.is_none()).map(|c| FileCfg { limit: 1000, memory: 1000, content: Some(big), ..c.clone() }).collect();
    ex.explore(&Files { name: "a big file", no_other: false, cfgs: cfgs_big, ops: vec![Push("a"), Push("l5"), Bulk(40), Save, Load, Reopen], depth: ex.pick(2, 3) });
    // compaction after every thirty writes
    let many: Vec<FileCfg> = cfgs
        .iter()
        .filter(|c| c.inc && (c.content.is_none() || c.content == Some(b"a\nb\n") || c.content == Some("b\n\u{e9} x".as_bytes()) || c.content.map_or(false, |x| x.starts_with(b"#c\nx"))))
        .map(|c| FileCfg { limit: if c.limit == 1000 { 1000 } else { c.limit * 4 }, ..c.clone() })
        .collect();
    let d = ex.pick(4, 5);
    let bulk = vec![Bulk(10), Bulk(29), Push("a"), Push("x"), Reopen, Load, Foreign("f")];
    ex.explore(&Files { name: "many pushes", no_other: false, cfgs: many, ops: bulk, depth: d });
    // in files of hundreds of kilobytes
    let text = |n: usize, w: usize| -> &'static [u8] {
        Box::leak((0..n).map(|i| format!("{} {}\n", i % (n - n / 4), "w\u{e9}".repeat(w))).collect::<String>().into_bytes().into_boxed_slice())
    };
    let (lines, wide) = (text(450, 50), text(40, 800));
    let mut large = vec![];
    for content in [lines, wide] {
        for (dups, limit) in [(false, 1000), (false, 300), (true, 1000)] {
            large.push(FileCfg { inc: true, dups, keep: false, limit, memory: 1000, content: Some(content) });
        }
    }
    let ops = vec![Bulk(10), Bulk(29), Push("a"), Push(long), Foreign("f"), Reopen];
    ex.explore(&Files { name: "large files", no_other: false, cfgs: large, ops, depth: ex.pick(3, 4) });
}

// ---- C17

#[derive(Clone, Debug)]
enum Act {
    Open,
    Push(&'static str),
    Reload,
}

#[derive(Clone)]
struct Prog {
    name: &'static str,
    /// What is in the file before.
    content: Option<String>,
    /// Actions of each session; one that does not start with Open has the file open already.
    sessions: Vec<Vec<Act>>,
    dups: bool,
    /// Writes a session has done before.
    writes: Vec<usize>,
    limit: usize,
}

struct Sched {
    progs: Vec<Prog>,
    depth: usize,
    /// Whether the loss of entries to a compaction is a listed finding.
    compaction_listed: bool,
}

#[derive(Default)]
struct Shared {
    /// (session, entry) in the order the pushes returned.
    returned: Vec<(usize, String)>,
    errors: Vec<String>,
}

fn no_tmp(s: String) -> String {
    match s.find("history.") {
        Some(i) => format!("{}(temporary file){}", &s[..i], s[i..].find(' ').map_or("", |j| &s[i + j..])),
        None => s,
    }
}

const NOT_SEEN: &str = "the session sees only";

fn loaded(v: &[String], dups: bool) -> Vec<String> {
    if dups {
        v.to_vec()
    } else {
        dedupe(v)
    }
}

/// Whether `got` is: the start entries, and for each session the first ones of those it pushed, in order.
fn consistent(got: &[String], start: &[String], pushed: &[Vec<String>]) -> Result<Vec<usize>, String> {
    if got.len() < start.len() || got[..start.len()] != *start {
        return Err(format!("the entries {:?} do not start with those there before, {:?}", got, start));
    }
    let rest = &got[start.len()..];
    // texts are distinct between sessions, and within one
    let mut seen = vec![0; pushed.len()];
    for x in rest {
        let s = pushed.iter().position(|p| p.contains(x));
        match s {
            Some(s) if pushed[s].get(seen[s]) == Some(x) => seen[s] += 1,
            Some(s) => return Err(format!("of {:?} session {} pushed {:?}", got, s, pushed[s])),
            None => return Err(format!("nobody pushed {:?}, in {:?}", x, got)),
        }
    }
    Ok(seen)
}

impl Space for Sched {
    fn name(&self) -> String {
        "every interleaving of file operations".into()
    }
    fn configs(&self) -> usize {
        self.progs.len()
    }
    fn tokens(&self, c: usize) -> usize {
        self.progs[c].sessions.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn min_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let p = &self.progs[c];
        let v: Vec<String> = seq.iter().map(|t| t.to_string()).collect();
        format!("{}: sessions {:?}, scheduled {}", p.name, p.sessions, v.join(""))
    }
    fn run(&self, c: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let p = &self.progs[c];
        let path = scratch().join("history");
        let _ = std::fs::remove_file(&path);
        let start = match &p.content {
            Some(x) => {
                std::fs::write(&path, x).map_err(|e| e.to_string())?;
                entries(x.as_bytes())
            }
            None => vec![],
        };
        let pushed: Vec<Vec<String>> = p
            .sessions
            .iter()
            .map(|s| s.iter().filter_map(|a| if let Act::Push(x) = a { Some(x.to_string()) } else { None }).collect())
            .collect();
        let shared = Rc::new(RefCell::new(Shared::default()));
        let mut start = start;
        let mut cos: Vec<Box<Co>> = vec![];
        let mut ready: Vec<History> = vec![];
        for (i, acts) in p.sessions.iter().enumerate() {
            let mut h = History::new();
            h.inc_append = true;
            h.share = true;
            h.load_duplicates = p.dups;
            h.set_max_file_size(p.limit);
            if !matches!(acts.first(), Some(Act::Open)) {
                h.set_file_name_and_load_history(&path).map_err(|e| e.to_string())?;
                for k in 0..p.writes.get(i).copied().unwrap_or(0) {
                    let s = format!("before {} {}", i, k);
                    h.push(Buffer::from(&s[..])).map_err(|e| e.to_string())?;
                    start.push(s);
                }
            }
            ready.push(h);
        }
        let reference: Rc<(Vec<String>, Vec<Vec<String>>)> = Rc::new((start.clone(), pushed.clone()));
        for (i, mut h) in ready.into_iter().enumerate() {
            let acts = p.sessions[i].clone();
            let (sh, rf, path) = (shared.clone(), reference.clone(), path.clone());
            let dups = p.dups;
            cos.push(Co::new(Box::new(move || {
                let mut own = 0;
                for a in acts {
                    let before = sh.borrow().returned.clone();
                    let look = match a {
                        Act::Open => h.set_file_name_and_load_history(&path).map(|_| true),
                        Act::Reload => h.load_history(false).map(|_| true),
                        Act::Push(x) => h.push(Buffer::from(x)).map(|_| {
                            own += 1;
                            sh.borrow_mut().returned.push((i, x.to_string()));
                            false
                        }),
                    };
                    let mut err = None;
                    match look {
                        Err(e) => err = Some(format!("{:?} failed: {}", a, e)),
                        Ok(true) => match consistent(&loaded(&mem(&h), dups), &loaded(&rf.0, dups), &rf.1) {
                            Err(e) => err = Some(format!("{:?}: {}", a, e)),
                            Ok(seen) => {
                                if seen[i] != own {
                                    err = Some(format!("{:?}: {} {} of {} entries of its own", a, NOT_SEEN, seen[i], own));
                                }
                                for (s, n) in seen.iter().enumerate() {
                                    let done = before.iter().filter(|r| r.0 == s).count();
                                    if *n < done {
                                        err = Some(format!("{:?}: {} {} of {} entries session {} had pushed", a, NOT_SEEN, n, done, s));
                                    }
                                }
                            }
                        },
                        Ok(false) => {}
                    }
                    if let Some(e) = err {
                        sh.borrow_mut().errors.push(format!("session {}: {}", i, e));
                    }
                }
            })));
        }
        // up to the first operation of each
        for co in cos.iter_mut() {
            co.step();
        }
        let mut trace: Vec<(usize, FsOp)> = vec![];
        let mut sleep: Vec<usize> = vec![];
        let mut used = seq.len();
        let mut pruned = false;
        let mut i = 0;
        loop {
            let enabled: Vec<usize> = (0..cos.len()).filter(|k| !cos[*k].done).collect();
            if enabled.is_empty() {
                if !pruned {
                    used = used.min(i);
                }
                break;
            }
            let t;
            if pruned || i >= seq.len() {
                t = enabled[0];
            } else {
                if enabled.iter().all(|e| sleep.contains(e)) {
                    // every continuation is the same as one explored elsewhere
                    pruned = true;
                    used = i;
                    continue;
                }
                t = seq[i] as usize;
                if !enabled.contains(&t) || sleep.contains(&t) {
                    pruned = true;
                    used = i + 1;
                    continue;
                }
                let op = cos[t].pending.clone().unwrap();
                let mut s: Vec<usize> = sleep.clone();
                s.extend(enabled.iter().filter(|u| **u < t && !sleep.contains(u)));
                s.retain(|u| *u != t && cos[*u].pending.as_ref().map_or(false, |o| o.independent(&op)));
                sleep = s;
            }
            trace.push((t, cos[t].pending.clone().unwrap()));
            st.steps += 1;
            cos[t].step();
            i += 1;
        }
        let panicked = cos.iter().find_map(|c| c.panicked.clone());
        drop(cos);
        if pruned {
            st.outcome("same as another interleaving");
            return Ok(used);
        }
        if i > seq.len() {
            st.outcome("longer than the bound");
        } else {
            st.outcome("complete");
        }
        let show = || {
            trace.iter().map(|(s, o)| format!("  session {}: {}", s, no_tmp(o.show()))).collect::<Vec<_>>().join("\n")
        };
        st.note(show);
        if let Some(e) = panicked {
            return Err(e);
        }
        let bytes = std::fs::read(&path).map_err(|e| e.to_string())?;
        let got = entries(&bytes);
        st.state(&(c, &got));
        st.state(&(c, trace.iter().map(|t| t.0).collect::<Vec<_>>()));
        let missing: Vec<(usize, &String)> =
            pushed.iter().enumerate().flat_map(|(s, v)| v.iter().map(move |x| (s, x))).filter(|x| !got.contains(x.1)).collect();
        if bytes.last() != Some(&b'\n') {
            return Err(format!("the file ends in an incomplete line\n{}", show()));
        }
        let errors = shared.borrow().errors.clone();
        let only_seen = errors.iter().all(|e| e.contains(NOT_SEEN));
        if !missing.is_empty() && !p.dups && only_seen && self.compaction_listed && known_compaction(&trace, &missing) {
            st.known("C17-compaction", || {
                "with load_duplicates off, an entry appended by another session while the file is being compacted (after it was \
                 read, before it is replaced) is lost"
                    .into()
            });
            return Ok(used);
        }
        if let Some(e) = errors.first() {
            return Err(format!("{}\n{}", e, show()));
        }
        match consistent(&loaded(&got, p.dups), &loaded(&start, p.dups), &pushed) {
            Err(e) => return Err(format!("in the file: {}\n{}", e, show())),
            Ok(_) if !missing.is_empty() => return Err(format!("{:?} is not in the file: {:?}\n{}", missing, got, show())),
            Ok(_) => {}
        }
        // and it loads
        if trace.iter().any(|(_, o)| o.kind == Kind::Other("rename")) {
            st.outcome("compacted");
            if dedupe(&got) != got && trace.last().map_or(false, |(_, o)| o.kind == Kind::Other("rename")) {
                return Err(format!("the file was compacted, and holds {:?}\n{}", got, show()));
            }
        }
        let mut h = History::new();
        h.set_max_file_size(p.limit);
        h.set_file_name_and_load_history(&path).map_err(|e| e.to_string())?;
        if mem(&h) != tail(&got, p.limit) {
            return Err(format!("the file with {:?} loads as {:?}", got, mem(&h)));
        }
        st.compared += 1;
        Ok(used)
    }
}

/// The recorded finding: the lost entries were written by another session than the one compacting, between its
/// reading the file and its replacing it (or into the replaced file, opened before).
fn known_compaction(trace: &[(usize, FsOp)], missing: &[(usize, &String)]) -> bool {
    let renames: Vec<usize> = (0..trace.len())
        .filter(|i| trace[*i].1.kind == Kind::Other("rename") && trace[*i].1.path2.ends_with("/history"))
        .collect();
    missing.iter().all(|(s, _)| renames.iter().any(|r| lost_to(trace, *r, *s)))
}

/// Whether something session `s` wrote fell between reading and replacing, in the compaction ending with `r`.
fn lost_to(trace: &[(usize, FsOp)], r: usize, s: usize) -> bool {
    let who = trace[r].0;
    let target = &trace[r].1.path2;
    let reading = trace[..r].iter().rposition(|(v, o)| *v == who && o.path == *target && o.kind == Kind::Look("read"));
    // its last opening of the file before
    let open = trace[..r].iter().rposition(|(v, o)| *v == who && o.path == *target && matches!(o.kind, Kind::Open { .. }));
    let reading = match (open, reading) {
        (Some(o), Some(x)) if o < x => x,
        _ => return false,
    };
    who != s
        && trace.iter().enumerate().any(|(i, (w, o))| {
            *w == s && o.path == *target && matches!(o.kind, Kind::Write(_)) && {
                let opened =
                    trace[..i].iter().rposition(|(v, o)| *v == s && o.path == *target && matches!(o.kind, Kind::Open { .. }));
                (i < r && i > reading) || (i > r && opened.map_or(false, |k| k < r))
            }
        })
}

pub fn c17(ex: &mut Explorer) {
    ex.rule = "all interleavings of the file operations (open, stat, seek, read, write, rename, unlink) of the sessions, up to the order \
               of operations that do not affect each other (sleep sets); cases are distinct by the schedule and the resulting file"
        .into();
    use Act::*;
    let p = |name, content: Option<&str>, sessions: Vec<Vec<Act>>| Prog {
        name,
        content: content.map(|s| s.to_string()),
        sessions,
        dups: true,
        writes: vec![],
        limit: 1000,
    };
    let mut progs = vec![
        p("two sessions, two entries each", Some("x\ny\n"), vec![vec![Push("a1"), Push("a2")], vec![Push("bb1"), Push("b2")]]),
        p("opening and pushing", None, vec![vec![Open, Push("a1")], vec![Open, Push("b1")]]),
        p("opening a file that is there", Some("x\n"), vec![vec![Open, Push("a1")], vec![Open, Push("b1")]]),
        p("push and reload", Some("x\n"), vec![vec![Push("a1"), Push("a2")], vec![Push("b1"), Reload, Reload]]),
        p("reload and push", Some(""), vec![vec![Push("a1"), Reload], vec![Reload, Push("b1"), Reload]]),
        p("three sessions", Some("x\n"), vec![vec![Push("a1")], vec![Push("b1")], vec![Push("c1")]]),
        p("three sessions, one reloads", Some("x\n"), vec![vec![Push("a1")], vec![Push("b1")], vec![Reload]]),
        p("empty entries", Some("x\n"), vec![vec![Push("a1"), Push("")], vec![Push("b1")]]),
    ];
    // more than one read to load
    let long: String = (0..700).map(|i| format!("line number {}\n", i)).collect();
    progs.push(p("a long file", Some(&long), vec![vec![Push("a1"), Push("a2")], vec![Open, Reload]]));
    // an entry longer than a buffer
    let big: &'static str = Box::leak("long ".repeat(4000).into_boxed_str());
    progs.push(p("a long entry", Some("x\n"), vec![vec![Push(big)], vec![Push("b1"), Reload]]));
    if ex.thorough() {
        progs.push(p("two sessions, three entries each", Some("x\n"), vec![vec![Push("a1"), Push("a2"), Push("a3")], vec![Push("b1"), Push("b2"), Push("b3")]]));
        progs.push(p("three sessions, two entries", Some("x\n"), vec![vec![Push("a1"), Push("a2")], vec![Push("b1"), Push("b2")], vec![Push("c1")]]));
        progs.push(p("three sessions, with reload", Some("x\n"), vec![vec![Push("a1"), Reload], vec![Push("b1"), Reload], vec![Push("c1")]]));
        progs.push(p("open, push, reload", None, vec![vec![Open, Push("a1"), Reload], vec![Open, Push("b1"), Reload]]));
    }
    // compaction
    for content in ["x\ny\n", "x\ny\nx\n", "a longer entry\na longer entry\ny\na longer entry\n"] {
        for (w, s) in [
            (29, vec![vec![Push("a1")], vec![Push("b1")]]),
            (28, vec![vec![Push("a1"), Push("a2")], vec![Push("b1")]]),
            (29, vec![vec![Push("a1")], vec![Push("b1"), Push("b2")]]),
            (29, vec![vec![Push("a1")], vec![Reload, Push("b1")]]),
            (29, vec![vec![Push("a1")], vec![Push("b1"), Reload]]),
            (29, vec![vec![Push("a1"), Reload], vec![Push("b1")]]),
            (29, vec![vec![Push("a1")], vec![Open, Push("b1")]]),
        ] {
            progs.push(Prog { dups: false, writes: vec![w], ..p("compaction", Some(content), s) });
        }
        let s = vec![vec![Push("a1")], vec![Push("b1")]];
        progs.push(Prog { dups: false, writes: vec![29, 29], ..p("two compactions", Some(content), s) });
        if ex.thorough() {
            let s = vec![vec![Push("a1")], vec![Push("b1")], vec![Push("c1")]];
            progs.push(Prog { dups: false, writes: vec![29], ..p("compaction, three sessions", Some(content), s) });
        }
    }
    // compacted, then grown to the size it had
    let same_size = "twenty-six characters long";
    for s in [
        vec![vec![Push("a1"), Push(same_size)], vec![Reload]],
        vec![vec![Push("a1"), Push(same_size)], vec![Reload, Reload]],
        vec![vec![Push("a1"), Push(same_size)], vec![Open, Reload]],
        vec![vec![Push("a1")], vec![Push(same_size)], vec![Reload]],
    ] {
        let content = "a longer entry\na longer entry\ny\na longer entry\n";
        progs.push(Prog { dups: false, writes: vec![29], ..p("the size it had", Some(content), s) });
    }
    let compaction_listed = ex.listed.iter().any(|l| l == "C17-compaction");
    ex.explore(&Sched { progs, depth: 48, compaction_listed });
}

// ---- C18

#[derive(Clone, Debug)]
enum CAct {
    Push(&'static str),
    Save,
    SaveTo,
    Load,
}

#[derive(Clone)]
struct Scenario {
    cfg: FileCfg,
    /// Entries pushed before the part during which the process may die.
    before: usize,
    acts: Vec<CAct>,
}

struct Crashes {
    name: &'static str,
    scenarios: Vec<Scenario>,
    /// Crash points of each: (operation, bytes), found by a first run.
    points: Vec<Vec<(usize, usize)>>,
    /// A second crash, while the session after the first one pushes.
    second: bool,
}

fn act(h: &mut History, a: &CAct, copy: &PathBuf) {
    match a {
        CAct::Push(s) => {
            let _ = h.push(Buffer::from(*s));
        }
        CAct::Save => h.commit_to_file(),
        CAct::SaveTo => {
            let _ = h.commit_to_file_path(copy);
        }
        CAct::Load => {
            let _ = h.load_history(false);
        }
    }
}

fn points(log: &[FsOp]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (i, o) in log.iter().enumerate() {
        match o.kind {
            Kind::Write(n) => {
                for b in 0..=n {
                    v.push((i, b));
                }
            }
            _ => v.push((i, 0)),
        }
    }
    v
}

impl Crashes {
    fn setup(&self, s: &Scenario) -> Result<(History, PathBuf, PathBuf), String> {
        let dir = scratch();
        for f in std::fs::read_dir(&dir).map_err(|e| e.to_string())?.flatten() {
            let _ = std::fs::remove_file(f.path());
        }
        let path = dir.join("history");
        if let Some(x) = s.cfg.content {
            std::fs::write(&path, x).map_err(|e| e.to_string())?;
            std::fs::write(dir.join("copy"), x).map_err(|e| e.to_string())?;
        }
        let mut h = open(&s.cfg, &path)?;
        for i in 0..s.before {
            let e = if i % 3 == 2 { "again".to_string() } else { format!("e{}", i) };
            h.push(Buffer::from(&e[..])).map_err(|e| e.to_string())?;
        }
        Ok((h, path, dir.join("copy")))
    }
    fn new(name: &'static str, scenarios: Vec<Scenario>, second: bool) -> Crashes {
        let mut c = Crashes { name, scenarios, points: vec![], second };
        let mut all = vec![];
        for s in &c.scenarios {
            let log = match c.setup(s) {
                Ok((mut h, _, copy)) => {
                    with_crash(Crash::default(), || {
                        for a in &s.acts {
                            act(&mut h, a, &copy);
                        }
                    })
                    .1
                    .log
                }
                Err(_) => vec![],
            };
            all.push(points(&log));
        }
        c.points = all;
        c
    }
}

/// What is loaded after a crash during an act that turns `old` into `new`, writing `entry` last.
fn survived(got: &[String], old: &[String], new: &[String], cfg: &FileCfg) -> Result<(), String> {
    if got == old || got == new {
        return Ok(());
    }
    // entries in the file before, and still within the limits after
    let mut rest: Vec<&String> = new.iter().collect();
    let mut both = vec![];
    for o in old {
        if let Some(i) = rest.iter().position(|n| *n == o) {
            rest.drain(..=i);
            both.push(o.clone());
        }
    }
    // entries at their latest place when duplicates are left out may only be found in a later place
    let entry = new.last().cloned().unwrap_or_default();
    let both_without: Vec<String> = both.iter().filter(|o| **o != entry).cloned().collect();
    let ok = |keep: &[String]| {
        is_subsequence(keep, got)
            && got.iter().enumerate().all(|(i, g)| {
                old.contains(g) || new.contains(g) || (i + 1 == got.len() && entry.starts_with(&g[..]))
            })
    };
    // the beginning of the entry counts as one towards the limit
    if let Some(cut) = got.last() {
        if entry.starts_with(&cut[..]) && (Log { all: [old, &[cut.clone()][..]].concat() }).check(got, cfg, "").is_ok() {
            return Ok(());
        }
    }
    if ok(&both) || (old.iter().filter(|o| **o == entry).count() > 0 && ok(&both_without) && got.last() == Some(&entry)) {
        return Ok(());
    }
    Err(format!("loaded afterwards: {:?}; in the file before: {:?}; to be in it: {:?}", got, old, new))
}

impl Space for Crashes {
    fn name(&self) -> String {
        self.name.into()
    }
    fn configs(&self) -> usize {
        self.scenarios.len()
    }
    fn tokens(&self, c: usize) -> usize {
        self.points[c].len().max(if self.second { 24 } else { 0 })
    }
    fn max_depth(&self) -> usize {
        1 + self.second as usize
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let s = &self.scenarios[c];
        let at = seq.first().and_then(|t| self.points[c].get(*t as usize));
        format!(
            "{:?}, after {} pushes: {:?}; dies at {}{}",
            FileCfg { content: None, ..s.cfg.clone() },
            s.before,
            s.acts,
            at.map_or("no operation".into(), |(o, b)| format!("changing operation {} after {} bytes", o, b)),
            if seq.len() > 1 { format!(", and again at point {} of the next push", seq[1]) } else { String::new() }
        ) + &format!(", file {:?}", s.cfg.content.map(|c| String::from_utf8_lossy(c).into_owned()))
    }
    fn run(&self, c: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let s = &self.scenarios[c];
        let (mut h, path, copy) = self.setup(s)?;
        let at = match seq.first() {
            Some(t) => match self.points[c].get(*t as usize) {
                Some(p) => Some(*p),
                None => return Ok(1),
            },
            None => None,
        };
        let copied = s.acts.iter().any(|a| matches!(a, CAct::SaveTo));
        let file = if copied { &copy } else { &path };
        // what a load gives between the acts, found without dying
        let load = |p: &PathBuf| -> Result<Vec<String>, String> {
            let mut o = History::new();
            o.load_duplicates = s.cfg.dups;
            o.set_max_file_size(s.cfg.limit);
            o.load_history_file(p, false).map_err(|e| format!("loading failed: {}", e))?;
            Ok(mem(&o))
        };
        let mut states = vec![if file.exists() { load(file)? } else { vec![] }];
        let mut want = None;
        if let Some((op, bytes)) = at {
            // the states without a crash, from a run of their own
            for a in &s.acts {
                act(&mut h, a, &copy);
                states.push(if file.exists() { load(file)? } else { vec![] });
            }
            let (mut h, _, _) = self.setup(s)?;
            let mut died_in = None;
            let (_, crash) = with_crash(Crash { at: Some(op), bytes, ..Default::default() }, || {
                for (i, a) in s.acts.iter().enumerate() {
                    act(&mut h, a, &copy);
                    let dead = CrashState::dead();
                    if dead {
                        died_in = Some(i);
                        break;
                    }
                }
            });
            st.steps += crash.count as u64;
            st.note(|| crash.log.iter().map(|o| no_tmp(o.show())).collect::<Vec<_>>().join("\n"));
            match died_in {
                Some(i) => want = Some((states[i].clone(), states[i + 1].clone())),
                None => return Err("harness: the operation to die at was not reached".into()),
            }
        } else {
            for a in &s.acts {
                act(&mut h, a, &copy);
            }
        }
        let got = if file.exists() { load(file)? } else { vec![] };
        st.note(|| format!("file {:?}, loaded {:?}", String::from_utf8_lossy(&std::fs::read(file).unwrap_or_default()), got));
        if let Some((old, new)) = &want {
            survived(&got, old, new, &s.cfg)?;
        }
        st.state(&(c, seq.first(), &got));
        // the next session
        if !copied {
            let cfg = FileCfg { inc: true, ..s.cfg.clone() };
            let mut n = open(&cfg, &path)?;
            if mem(&n) != got {
                return Err(format!("opening gives {:?}, loading {:?}", mem(&n), got));
            }
            let raw = entries(&std::fs::read(&path).map_err(|e| e.to_string())?);
            let all = [&got[..], &["zz after \u{e9}".to_string()]].concat();
            let mut wanted = tail(&all, s.cfg.limit);
            if !s.cfg.dups {
                wanted = dedupe(&wanted);
            }
            if seq.len() > 1 {
                let b = seq[1] as usize;
                let (_, crash) = with_crash(Crash { at: Some(0), bytes: b, ..Default::default() }, || {
                    let _ = n.push(Buffer::from("zz after \u{e9}"));
                });
                if let Some(FsOp { kind: Kind::Write(k), .. }) = crash.log.first() {
                    if b > *k {
                        return Ok(2);
                    }
                }
                let again = load(&path)?;
                survived(&again, &got, &wanted, &s.cfg)?;
                let mut m = open(&cfg, &path)?;
                let raw = entries(&std::fs::read(&path).map_err(|e| e.to_string())?);
                let _ = m.push(Buffer::from("last"));
                Log { all: [&raw[..], &["last".to_string()]].concat() }
                    .check(&load(&path)?, &s.cfg, "loading after an entry was pushed after the second crash")?;
            } else {
                n.push(Buffer::from("zz after \u{e9}")).map_err(|e| e.to_string())?;
                Log { all: [&raw[..], &["zz after \u{e9}".to_string()]].concat() }
                    .check(&load(&path)?, &s.cfg, "loading after an entry was pushed afterwards")?;
            }
        }
        st.outcome(if want.is_some() { "survived" } else { "no crash" });
        st.compared += 1;
        Ok(seq.len())
    }
}

struct CrashState;
impl CrashState {
    fn dead() -> bool {
        crate::fsx::is_dead()
    }
}

pub fn c18(ex: &mut Explorer) {
    ex.level = "fault_enumeration";
    ex.rule = "for each scenario, a crash at every file operation that changes something, and after every number of bytes of each write; then loading, and pushing in a new session; a \
               case is non-trivial by scenario, crash point and what was loaded"
        .into();
    use CAct::*;
    let base = FileCfg { inc: true, dups: true, keep: false, limit: 1000, memory: 1000, content: None };
    let contents: [Option<&'static [u8]>; 6] =
        [None, Some(b""), Some(b"a\nb\n"), Some(b"a\nb"), Some("x\n\u{e9}\u{4e16}\nb\n".as_bytes()), Some(b"a\n\xc3")];
    let mut v = vec![];
    for content in contents {
        for limit in [1000, 2] {
            for dups in [true, false] {
                let cfg = FileCfg { content, limit, dups, ..base.clone() };
                v.push(Scenario { cfg: cfg.clone(), before: 0, acts: vec![Push("new \u{e9}\u{4e16}")] });
                v.push(Scenario { cfg: cfg.clone(), before: 1, acts: vec![Push("n1"), Push("a"), Push("\u{e9}")] });
                v.push(Scenario { cfg: cfg.clone(), before: 0, acts: vec![Push("")] });
                let off = FileCfg { inc: false, ..cfg.clone() };
                v.push(Scenario { cfg: off.clone(), before: 2, acts: vec![Save] });
                v.push(Scenario { cfg: off.clone(), before: 0, acts: vec![Push("p"), Save, Push("q"), Save] });
                v.push(Scenario { cfg: off.clone(), before: 1, acts: vec![SaveTo] });
                v.push(Scenario { cfg: off.clone(), before: 4, acts: vec![Load, Push("r"), Save] });
            }
        }
    }
    ex.explore(&Crashes::new("appending and saving", v.clone(), false));
    ex.explore(&Crashes::new("dying twice", v.into_iter().filter(|s| s.cfg.inc && s.acts.len() == 1).collect(), true));
    // compaction: the thirtieth write
    let mut v = vec![];
    for content in contents {
        for limit in [1000, 20, 3, 1] {
            for before in [27, 28, 29, 59] {
                let cfg = FileCfg { content, limit, dups: false, ..base.clone() };
                v.push(Scenario { cfg: cfg.clone(), before, acts: vec![Push("c1"), Push("again"), Push("c3")] });
            }
        }
    }
    ex.explore(&Crashes::new("compaction", v, false));
}

// ---- C31

/// One file operation fails, or all from there on as long as the call lasts; the session goes on.
struct Failing {
    name: &'static str,
    scenarios: Vec<Scenario>,
    points: Vec<Vec<(usize, usize)>>,
    once: bool,
    /// Ways to go on: a push, or an entry of that many bytes by another session, and a load.
    ways: usize,
}

impl Failing {
    fn token(&self, c: usize, seq: &[u16]) -> (usize, usize) {
        let t = seq.first().map_or(usize::MAX, |t| *t as usize);
        let n = self.points[c].len();
        if n == 0 || t == usize::MAX { (usize::MAX, 0) } else { (t % n, t / n) }
    }
    fn new(name: &'static str, scenarios: Vec<Scenario>, once: bool, ways: usize) -> Failing {
        let setup = Crashes { name, scenarios: vec![], points: vec![], second: false };
        let points = scenarios
            .iter()
            .map(|s| match setup.setup(s) {
                Ok((mut h, _, copy)) => points(
                    &with_crash(Crash { looks: true, ..Default::default() }, || {
                        for a in &s.acts {
                            act(&mut h, a, &copy);
                        }
                    })
                    .1
                    .log,
                ),
                Err(_) => vec![],
            })
            .collect();
        // of a long write some
        let mut points: Vec<Vec<(usize, usize)>> = points;
        for p in &mut points {
            if p.len() > 1000 {
                p.retain(|(_, bytes)| *bytes < 20 || bytes % 499 == 0);
            }
        }
        Failing { name, scenarios, points, once, ways }
    }
}

impl Space for Failing {
    fn name(&self) -> String {
        self.name.into()
    }
    fn configs(&self) -> usize {
        self.scenarios.len()
    }
    fn tokens(&self, c: usize) -> usize {
        let s = &self.scenarios[c];
        self.points[c].len() * if s.cfg.inc { self.ways } else { 1 }
    }
    fn max_depth(&self) -> usize {
        1
    }
    fn min_depth(&self) -> usize {
        1
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let s = &self.scenarios[c];
        let (t, way) = self.token(c, seq);
        let at = self.points[c].get(t);
        format!(
            "{:?}, after {} pushes: {:?}; {} fails{}, {}file {:?}",
            FileCfg { content: None, ..s.cfg.clone() },
            s.before,
            s.acts,
            at.map_or("nothing".into(), |(o, b)| format!("operation {} (after {} bytes)", o, b)),
            if self.once { "" } else { " with all that follow in the same call" },
            if way == 0 { String::new() } else { format!("then another session adds an entry of {} bytes; ", way) },
            s.cfg.content.map(|c| if c.len() > 100 { format!("of {} bytes", c.len()) } else { String::from_utf8_lossy(c).into_owned() })
        )
    }
    fn run(&self, c: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let s = &self.scenarios[c];
        let (t, way) = self.token(c, seq);
        let Some((op, bytes)) = self.points[c].get(t).copied() else { return Ok(0) };
        let setup = Crashes { name: "", scenarios: vec![], points: vec![], second: false };
        let copied = s.acts.iter().any(|a| matches!(a, CAct::SaveTo));
        let load = |p: &PathBuf| -> Result<Vec<String>, String> {
            if !p.exists() {
                return Ok(vec![]);
            }
            let mut o = History::new();
            o.load_duplicates = s.cfg.dups;
            o.set_max_file_size(s.cfg.limit);
            o.load_history_file(p, false).map_err(|e| format!("loading failed: {}", e))?;
            Ok(mem(&o))
        };
        // without the failure
        let (mut h, path, copy) = setup.setup(s)?;
        let file = if copied { &copy } else { &path };
        let mut states = vec![load(file)?];
        let mut held = vec![mem(&h)];
        for a in &s.acts {
            act(&mut h, a, &copy);
            states.push(load(file)?);
            held.push(mem(&h));
        }
        // with it
        let (mut h, _, _) = setup.setup(s)?;
        let mut failed = None;
        let mut said = None;
        let (_, crash) = with_crash(Crash { at: Some(op), bytes, looks: true, once: self.once, ..Default::default() }, || {
            for (i, a) in s.acts.iter().enumerate() {
                match a {
                    CAct::Load => said = Some(h.load_history(false).is_ok()),
                    a => act(&mut h, a, &copy),
                }
                if crate::fsx::is_hit() {
                    failed = Some(i);
                    break;
                }
            }
        });
        st.steps += crash.count as u64;
        st.note(|| crash.log.iter().map(|o| no_tmp(o.show())).collect::<Vec<_>>().join("\n"));
        let Some(i) = failed else { return Err("harness: the operation to fail was not reached".into()) };
        let got = load(file)?;
        st.note(|| format!("file {:?}, loaded {:?}, held {:?}", String::from_utf8_lossy(&std::fs::read(file).unwrap_or_default()), got, mem(&h)));
        survived(&got, &states[i], &states[i + 1], &s.cfg)?;
        let now = mem(&h);
        match s.acts[i] {
            CAct::Load => {
                // all that the file holds, what it takes without a failure, or nothing
                let ok = said == Some(true);
                if !(if ok { now == held[i + 1] || now == got } else { now == held[i] }) {
                    let want = if ok { &got } else { &held[i] };
                    return Err(format!("a load that says {} leaves {:?}, expected {:?}", if ok { "Ok" } else { "Err" }, now, want));
                }
            }
            CAct::Save | CAct::SaveTo if now == held[i] => {}
            _ if now != held[i + 1] => return Err(format!("the history in memory is {:?}, expected {:?}", now, held[i + 1])),
            _ => {}
        }
        st.state(&(c, seq[0], &got, &now));
        // the disk works again
        if way > 0 {
            let mut o = History::new();
            o.inc_append = true;
            o.load_duplicates = true;
            o.set_file_name_and_load_history(&path).map_err(|e| e.to_string())?;
            o.push(Buffer::from("o".repeat(way))).map_err(|e| e.to_string())?;
            h.load_history(false).map_err(|e| e.to_string())?;
            let (now, there) = (mem(&h), load(&path)?);
            if now != there || there.last().map_or(true, |l| l.len() != way) {
                return Err(format!("after an entry of another session and a load {:?} is held, the file has {:?}", now, there));
            }
        } else if !copied {
            let raw = entries(&std::fs::read(&path).unwrap_or_default());
            let last = "zz after \u{e9}".to_string();
            h.push(Buffer::from(&last[..])).map_err(|e| e.to_string())?;
            if s.cfg.inc {
                Log { all: [&raw[..], &[last]].concat() }.check(&load(&path)?, &s.cfg, "loading after another push")?;
            } else {
                h.commit_to_file();
                let want = tail(&[&now[..], &[last]].concat(), s.cfg.limit);
                let want = if s.cfg.dups { want } else { dedupe(&want) };
                let got = load(&path)?;
                if got != want {
                    return Err(format!("after another push and save {:?} is loaded, expected {:?}", got, want));
                }
            }
        }
        st.outcome(if self.once { "one failure" } else { "failures" });
        st.compared += 1;
        Ok(seq.len())
    }
}

pub fn c31(ex: &mut Explorer) {
    ex.level = "fault_enumeration";
    ex.rule = "for each scenario, a failure of every single file operation (reads and looks included), after every number of bytes of each write, and of it and all that follow \
               in the same call; then loading, and going on in the same session; a case is non-trivial by scenario, place of the failure and what was loaded and held"
        .into();
    use CAct::*;
    let base = FileCfg { inc: true, dups: true, keep: false, limit: 1000, memory: 1000, content: None };
    let contents: [Option<&'static [u8]>; 6] =
        [None, Some(b""), Some(b"a\nb\n"), Some(b"a\nb"), Some("x\n\u{e9}\u{4e16}\nb\n".as_bytes()), Some(b"a\n\xc3")];
    let mut v = vec![];
    for content in contents {
        for limit in [1000, 2] {
            for dups in [true, false] {
                let cfg = FileCfg { content, limit, dups, ..base.clone() };
                v.push(Scenario { cfg: cfg.clone(), before: 0, acts: vec![Push("new \u{e9}\u{4e16}")] });
                v.push(Scenario { cfg: cfg.clone(), before: 1, acts: vec![Push("n1"), Push("a"), Push("\u{e9}")] });
                v.push(Scenario { cfg: cfg.clone(), before: 2, acts: vec![Load, Push("n1"), Load] });
                let off = FileCfg { inc: false, ..cfg.clone() };
                v.push(Scenario { cfg: off.clone(), before: 2, acts: vec![Save] });
                v.push(Scenario { cfg: off.clone(), before: 0, acts: vec![Push("p"), Save, Push("q"), Save] });
                v.push(Scenario { cfg: off.clone(), before: 1, acts: vec![SaveTo] });
                v.push(Scenario { cfg: off.clone(), before: 4, acts: vec![Load, Push("r"), Save, Load] });
            }
        }
    }
    // a file read in several pieces
    let long: &'static [u8] = Box::leak((0..600).map(|i| format!("entry {} of many\n", i % 350)).collect::<String>().into_bytes().into_boxed_slice());
    for limit in [3000, 100] {
        for dups in [true, false] {
            let cfg = FileCfg { content: Some(long), limit, dups, memory: 3000, ..base.clone() };
            v.push(Scenario { cfg: cfg.clone(), before: 2, acts: vec![Load, Push("n1"), Load] });
            v.push(Scenario { cfg: FileCfg { inc: false, ..cfg }, before: 2, acts: vec![Load, Push("n1")] });
        }
    }
    let mut w = vec![];
    for content in contents.into_iter().chain([Some(long)]) {
        for limit in [3000, 20, 3, 1] {
            for before in [28, 29] {
                let cfg = FileCfg { content, limit, dups: false, ..base.clone() };
                w.push(Scenario { cfg: cfg.clone(), before, acts: vec![Push("c1"), Push("again"), Push("c3")] });
            }
        }
    }
    for once in [true, false] {
        ex.explore(&Failing::new(if once { "one failure" } else { "failures to the end of the call" }, v.clone(), once, 16));
        ex.explore(&Failing::new(if once { "compaction, one failure" } else { "compaction, failures to the end of the call" }, w.clone(), once, 1));
    }
}
