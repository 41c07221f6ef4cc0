//! C14: filename completion, against what the prefix means by its text and the directory it names.
use crate::engine::*;
use liner::{Completer, FilenameCompleter};
use std::cell::RefCell;
use std::collections::HashMap;
use std::path::{Path, PathBuf};

struct Names {
    name: &'static str,
    /// Pieces the prefixes are put together from.
    pieces: Vec<String>,
    /// The working directory given (None: that of the process), the same as an absolute path, and whether case counts.
    cfgs: Vec<(Option<&'static str>, PathBuf, bool)>,
    depth: usize,
}

thread_local! {
    #[allow(clippy::type_complexity)]
    static SEEN: RefCell<HashMap<String, Option<Vec<(String, bool)>>>> = RefCell::new(HashMap::new());
}

/// The entries of a directory and whether they are directories, as the file system has them.
fn listing(dir: &str) -> Option<Vec<(String, bool)>> {
    SEEN.with(|s| {
        s.borrow_mut()
            .entry(dir.to_string())
            .or_insert_with(|| {
                let v = std::fs::read_dir(dir).ok()?;
                let mut v: Vec<(String, bool)> = v
                    .map(|e| {
                        let e = e.unwrap();
                        let d = std::fs::metadata(e.path()).map_or(false, |m| m.is_dir());
                        (e.file_name().to_string_lossy().into_owned(), d)
                    })
                    .collect();
                v.sort();
                Some(v)
            })
            .clone()
    })
}

/// What the prefix says once it is read as a shell word: quoted, or with escaped blanks.
fn unquoted(prefix: &str) -> String {
    let mut c: Vec<char> = prefix.chars().collect();
    match c.first() {
        Some(q @ ('"' | '\'')) => {
            let q = *q;
            c.remove(0);
            if c.last() == Some(&q) {
                c.pop();
            }
        }
        _ => {
            let mut i = 0;
            while i + 1 < c.len() {
                if c[i] == '\\' && c[i + 1] == ' ' {
                    c.remove(i);
                }
                i += 1;
            }
        }
    }
    c.into_iter().collect()
}

/// What is to be offered for the prefix.
pub fn expected(prefix: &str, wd: &Path, case: bool) -> Vec<String> {
    let s = unquoted(prefix);
    let mut dir: String = s.clone();
    let mut name = String::new();
    let last = s.split('/').next_back().unwrap().to_string();
    if !last.is_empty() && last != ".." {
        dir.truncate(s.len() - last.len());
        name = last;
    }
    let full = if dir.starts_with('/') { dir.clone() } else { format!("{}/{}", wd.display(), dir) };
    let mut v = vec![];
    for (n, is_dir) in listing(&full).unwrap_or_default() {
        let begins = if case { n.starts_with(&name) } else { n.to_lowercase().starts_with(&name.to_lowercase()) };
        if begins {
            let sep = if dir.is_empty() || dir.ends_with('/') { "" } else { "/" };
            v.push(format!("{}{}{}{}", dir, sep, n, if is_dir { "/" } else { "" }).replace(' ', "\\ "));
        }
    }
    v.sort();
    v
}

impl Space for Names {
    fn name(&self) -> String {
        self.name.into()
    }
    fn configs(&self) -> usize {
        self.cfgs.len()
    }
    fn tokens(&self, _: usize) -> usize {
        self.pieces.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let p: String = seq.iter().map(|t| &self.pieces[*t as usize][..]).collect();
        let (wd, _, case) = &self.cfgs[c];
        format!("working directory {:?}, {}, prefix {:?}", wd, if *case { "case counts" } else { "case ignored" }, p)
    }
    fn run(&self, c: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let (wd, at, case) = &self.cfgs[c];
        let p: String = seq.iter().map(|t| &self.pieces[*t as usize][..]).collect();
        let mut f =
            if *case { FilenameCompleter::new(*wd) } else { FilenameCompleter::with_case_sensitivity(*wd, false) };
        let mut got = f.completions(&p);
        got.sort();
        let want = expected(&p, at, *case);
        st.steps += 1;
        st.compared += 1;
        st.outcome(if want.is_empty() { "nothing to offer" } else { "offers" });
        st.note(|| format!("{:?}", got));
        if !want.is_empty() {
            st.state(&(c, &p));
        }
        if got != want {
            return Err(format!("offered {:?}, expected {:?}", got, want));
        }
        Ok(seq.len())
    }
}

/// One completer asked again and again while the directory changes.
struct Again {
    ops: Vec<Change>,
    depth: usize,
}

#[derive(Clone, Copy, Debug)]
enum Change {
    Ask(&'static str),
    File(&'static str),
    Dir(&'static str),
    Gone(&'static str),
}

impl Space for Again {
    fn name(&self) -> String {
        "a directory that changes".into()
    }
    fn configs(&self) -> usize {
        2
    }
    fn tokens(&self, _: usize) -> usize {
        self.ops.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let v: Vec<String> = seq.iter().map(|t| format!("{:?}", self.ops[*t as usize])).collect();
        format!("{}: {}", if c == 0 { "case counts" } else { "case ignored" }, v.join(", "))
    }
    fn run(&self, c: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let root = crate::fsx::scratch().join("again");
        let _ = std::fs::remove_dir_all(&root);
        std::fs::create_dir(&root).map_err(|e| e.to_string())?;
        std::fs::write(root.join("a"), "").map_err(|e| e.to_string())?;
        let mut f = FilenameCompleter::with_case_sensitivity(Some(&root), c == 0);
        for (i, t) in seq.iter().enumerate() {
            let op = self.ops[*t as usize];
            st.steps += 1;
            match op {
                Change::Ask(p) => {
                    let mut got = f.completions(p);
                    got.sort();
                    SEEN.with(|s| s.borrow_mut().clear());
                    let want = expected(p, &root, c == 0);
                    st.note(|| format!("{:?} -> {:?}, expected {:?}", op, got, want));
                    st.compared += 1;
                    if got != want {
                        return Err(format!("operation {} ({:?}): offered {:?}, expected {:?}", i + 1, op, got, want));
                    }
                    st.state(&(c, p, got));
                }
                // what is not possible is left out
                Change::File(n) if root.join(n).exists() => return Ok(i + 1),
                Change::File(n) => {
                    if std::fs::write(root.join(n), "").is_err() {
                        return Ok(i + 1);
                    }
                }
                Change::Dir(n) => {
                    if std::fs::create_dir(root.join(n)).is_err() {
                        return Ok(i + 1);
                    }
                }
                Change::Gone(n) => {
                    let p = root.join(n);
                    if std::fs::remove_file(&p).is_err() && std::fs::remove_dir(&p).is_err() {
                        return Ok(i + 1);
                    }
                }
            }
        }
        Ok(seq.len())
    }
}

/// A directory of files for lines in which file names are completed.
pub fn few_files() -> PathBuf {
    let root = crate::fsx::scratch().join("few");
    if !root.exists() {
        for d in ["d", "d/e", "D d", "d/\u{e9} x"] {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        for f in ["a", "ab", "a b", "a c", "b b", "d/a", "d/ab", "D d/b", "d/e/x", "\u{e9}\u{e9}"] {
            std::fs::write(root.join(f), "").unwrap();
        }
    }
    root
}

pub fn c14(ex: &mut Explorer) {
    ex.rule = "all prefixes put together from up to the stated number of pieces, in a real directory tree; cases with something to offer \
               are distinct by prefix and configuration"
        .into();
    let top = crate::fsx::scratch().join("tree");
    let root = top.join("m/root");
    let _ = std::fs::remove_dir_all(&top);
    for d in ["d", "d/d", "D d", "\u{e9} d", "d/.x", "Dd/e"] {
        std::fs::create_dir_all(root.join(d)).unwrap();
    }
    for f in [
        "a", "ab", "Ab", "aB", "\u{e9}", "\u{c9}b", "a b", "b a  a", ".h", "..x", "d/a", "d/a b", "d/d/\u{e9}a", "D d/b", "D d/a", "\u{e9} d/b b",
        "Dd/.a", "\u{df}", "\u{130}a", "a\"b", "d/'a",
    ] {
        std::fs::write(root.join(f), "").unwrap();
    }
    std::os::unix::fs::symlink("d", root.join("l")).unwrap();
    std::os::unix::fs::symlink("nowhere", root.join("bl")).unwrap();
    std::os::unix::fs::symlink("a", root.join("d/al")).unwrap();
    std::env::set_current_dir(&root).unwrap();
    let abs: &'static str = Box::leak(root.to_str().unwrap().to_string().into_boxed_str());
    let abs_d: &'static str = Box::leak(format!("{}/d/", abs).into_boxed_str());
    let mut cfgs = vec![];
    for case in [true, false] {
        cfgs.push((None, root.clone(), case));
        cfgs.push((Some(abs), root.clone(), case));
        cfgs.push((Some(abs_d), root.join("d"), case));
        cfgs.push((Some("D d"), root.join("D d"), case));
        cfgs.push((Some("."), root.clone(), case));
        cfgs.push((Some("nowhere"), root.join("nowhere"), case));
    }
    let chars: Vec<String> = "aAb\u{e9} \\/.dD\"'".chars().map(|c| c.to_string()).collect();
    ex.explore(&Names { name: "characters", pieces: chars, cfgs: cfgs.clone(), depth: ex.pick(4, 5) });
    let two: Vec<_> = cfgs.iter().filter(|c| c.0.is_none() || c.0 == Some(abs_d)).cloned().collect();
    let few: Vec<String> = "aB\u{e9} \\/.d\"".chars().map(|c| c.to_string()).collect();
    ex.explore(&Names { name: "longer", pieces: few, cfgs: two.clone(), depth: ex.pick(5, 7) });
    let mut pieces: Vec<String> =
        ["d", "/", "D\\ ", "D ", "..", ".", "\u{e9}", "\u{c9}", "a\\ b", "b", "\"", "'", "nowhere", "a/", "l/", "\u{df}", "\u{130}", "i\u{307}"]
            .iter()
            .map(|s| s.to_string())
            .collect();
    pieces.push(abs.to_string());
    ex.explore(&Names { name: "path pieces", pieces, cfgs, depth: ex.pick(4, 5) });
    // many entries, long names, odd names
    let big = top.join("m/big");
    for d in ["many", "odd", "odd/b\\"] {
        std::fs::create_dir_all(big.join(d)).unwrap();
    }
    for i in 0..1500 {
        std::fs::write(big.join(format!("many/f{} {}", i % 40, i)), "").unwrap();
    }
    let long = "n".repeat(255);
    let wide = "\u{4e16}".repeat(85);
    for f in [&long[..], &wide[..], "b\\s", "\\", "b\\ s", "new\nline", "tab\t", " ", " x", "~", "*", "-", "e\u{301}", "x ", "x  y", "\u{3000}"] {
        std::fs::write(big.join("odd").join(f), "").unwrap();
    }
    std::os::unix::fs::symlink("loop", big.join("odd/loop")).unwrap();
    let not_text = <std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::from_bytes(b"no\xfftext");
    std::fs::write(big.join("odd").join(not_text), "").unwrap();
    let mut cfgs = vec![];
    let at: &'static str = Box::leak(big.to_str().unwrap().to_string().into_boxed_str());
    let odd: &'static str = Box::leak(format!("{}/odd", at).into_boxed_str());
    for case in [true, false] {
        cfgs.push((Some(at), big.clone(), case));
        cfgs.push((Some(odd), big.join("odd"), case));
    }
    let mut pieces: Vec<String> =
        ["many", "odd", "/", "f", "1", "39", "\\ ", "7", "n", "N", "no", "new\n", "tab\t", "b\\", "\\", "x", " ", "~", "*", "-", "e", "\u{301}", "\u{4e16}", "\u{3000}", "s"]
            .iter()
            .map(|s| s.to_string())
            .collect();
    pieces.extend([long, wide]);
    ex.explore(&Names { name: "many files, odd names", pieces, cfgs, depth: ex.pick(3, 4) });
    let _ = std::env::set_current_dir("/");
    use Change::*;
    let ops = vec![Ask(""), Ask("a"), Ask("d/"), Ask("d"), File("ab"), File("d/a"), File("a"), Dir("d"), Dir("d/b"), Gone("a"), Gone("d/a"), Gone("d"), Gone("d/b"), File("d")];
    ex.explore(&Again { ops, depth: ex.pick(5, 6) });
}
