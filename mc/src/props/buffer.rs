//! C06, C21, C22: text buffers and word splitting, against plain strings and lists of snapshots.
use crate::engine::*;
use crate::model;
use liner::{Buffer, CursorPosition};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

// ---- C06

#[derive(Clone, Copy, Debug)]
enum Op {
    InsFront,
    InsEnd,
    InsMid,
    InsNone,
    RemFirst,
    RemLast,
    RemMid,
    RemNone,
    Truncate(usize),
    TruncateEnd,
    Start,
    End,
    Undo,
    Redo,
    Revert,
    Clear,
    Copy,
    Append,
    /// So many changes, each of one character.
    Many(usize),
    UndoMany(usize),
    RedoMany(usize),
}

struct UndoSpace {
    name: &'static str,
    init: Vec<&'static str>,
    ops: Vec<Op>,
    depth: usize,
}

/// Texts before each step, and the step being recorded.
#[derive(Clone, Default, Hash)]
struct Oracle {
    text: Vec<char>,
    done: Vec<Vec<char>>,
    undone: Vec<Vec<char>>,
    open: usize,
    /// The text at the start of the outermost group, and whether it has recorded a change.
    base: Vec<char>,
    recorded: bool,
    /// Groups without any change were recorded: whether undo and redo report them is left open.
    empty: bool,
}

impl Oracle {
    fn change(&mut self, new: Vec<char>) {
        let old = std::mem::replace(&mut self.text, new);
        self.undone.clear();
        if self.open == 0 {
            self.done.push(old);
        } else {
            self.recorded = true;
        }
    }
    fn splice(&mut self, s: usize, e: usize, with: &[char]) {
        let mut n = self.text[..s].to_vec();
        n.extend_from_slice(with);
        n.extend_from_slice(&self.text[e..]);
        self.change(n);
    }
    fn undo(&mut self) -> bool {
        match self.done.pop() {
            Some(t) => {
                self.undone.push(std::mem::replace(&mut self.text, t));
                true
            }
            None => false,
        }
    }
    fn redo(&mut self) -> bool {
        match self.undone.pop() {
            Some(t) => {
                self.done.push(std::mem::replace(&mut self.text, t));
                true
            }
            None => false,
        }
    }
}

impl Space for UndoSpace {
    fn name(&self) -> String {
        self.name.into()
    }
    fn configs(&self) -> usize {
        self.init.len()
    }
    fn tokens(&self, _: usize) -> usize {
        self.ops.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let v: Vec<String> = seq.iter().map(|t| format!("{:?}", self.ops[*t as usize])).collect();
        format!("buffer {:?}: {}", self.init[c], v.join(", "))
    }
    fn run(&self, c: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let mut b = Buffer::from(self.init[c]);
        let mut o = Oracle { text: model::t(self.init[c]), ..Default::default() };
        for (i, t) in seq.iter().enumerate() {
            let op = self.ops[*t as usize];
            let n = o.text.len();
            let mut ret: Option<(bool, bool)> = None;
            match op {
                Op::InsFront => {
                    b.insert(0, &['x']);
                    o.splice(0, 0, &['x']);
                }
                Op::InsEnd => {
                    b.insert(n, &['é', 'z']);
                    o.splice(n, n, &['é', 'z']);
                }
                Op::InsMid => {
                    b.insert(n / 2, &['世', 'y', ' ']);
                    o.splice(n / 2, n / 2, &['世', 'y', ' ']);
                }
                Op::InsNone => {
                    b.insert(n / 2, &[]);
                    o.splice(0, 0, &[]);
                }
                Op::RemFirst | Op::RemLast if n == 0 => return Ok(i + 1),
                Op::RemFirst => {
                    let r = b.remove(0, 1);
                    if r != 1 {
                        return Err(format!("remove(0, 1) returned {}", r));
                    }
                    o.splice(0, 1, &[]);
                }
                Op::RemLast => {
                    b.remove(n - 1, n);
                    o.splice(n - 1, n, &[]);
                }
                Op::RemMid => {
                    let (s, e) = (n / 3, n - n / 3);
                    let r = b.remove(s, e);
                    if r != e - s {
                        return Err(format!("remove({}, {}) returned {}", s, e, r));
                    }
                    o.splice(s, e, &[]);
                }
                Op::RemNone => {
                    b.remove(n, n);
                    o.splice(n, n, &[]);
                }
                Op::Truncate(k) => {
                    if k > n {
                        return Ok(i + 1);
                    }
                    b.truncate(k);
                    o.splice(k, n, &[]);
                }
                Op::TruncateEnd => {
                    b.truncate(n);
                    o.splice(n, n, &[]);
                }
                Op::Start => {
                    b.start_undo_group();
                    if o.open == 0 {
                        o.base = o.text.clone();
                        o.recorded = false;
                    }
                    o.open += 1;
                }
                Op::End => {
                    if o.open == 0 {
                        return Ok(i + 1);
                    }
                    b.end_undo_group();
                    o.open -= 1;
                    if o.open == 0 {
                        if o.recorded {
                            let base = std::mem::take(&mut o.base);
                            o.done.push(base);
                        } else {
                            o.empty = true;
                        }
                    }
                }
                Op::Many(k) => {
                    for j in 0..k {
                        let n = o.text.len();
                        if j % 4 == 3 {
                            b.remove(n - 1, n);
                            o.splice(n - 1, n, &[]);
                        } else {
                            let c = (b'a' + (j % 26) as u8) as char;
                            b.insert(n, &[c]);
                            o.splice(n, n, &[c]);
                        }
                    }
                }
                Op::Undo | Op::Redo | Op::Revert | Op::Clear | Op::UndoMany(_) | Op::RedoMany(_) if o.open > 0 => return Ok(i + 1),
                Op::UndoMany(k) | Op::RedoMany(k) => {
                    for j in 0..k {
                        let (did, expected) = if let Op::UndoMany(_) = op { (b.undo(), o.undo()) } else { (b.redo(), o.redo()) };
                        if did != expected && (expected || !o.empty) {
                            return Err(format!("operation {} ({:?}): number {} returned {}, expected {}", i + 1, op, j + 1, did, expected));
                        }
                    }
                }
                Op::Undo => ret = Some((b.undo(), o.undo())),
                Op::Redo => ret = Some((b.redo(), o.redo())),
                Op::Revert => {
                    let did = !o.done.is_empty();
                    while o.undo() {}
                    ret = Some((b.revert(), did));
                }
                Op::Clear => {
                    b.clear_actions();
                    o.done.clear();
                    o.undone.clear();
                    o.empty = false;
                }
                Op::Copy => {
                    let other = Buffer::from("a\nb");
                    b.copy_buffer(&other);
                    // removes everything, and inserts
                    o.change(vec![]);
                    o.change(model::t("a\nb"));
                }
                Op::Append => {
                    let mut s: String = o.text.iter().collect();
                    s.push('q');
                    b.insert_from_buffer(&Buffer::from(&s[..]));
                    o.change(model::t(&s));
                }
            }
            st.steps += 1;
            let got = b.to_string();
            let want = model::st(&o.text);
            st.note(|| format!("{:?} -> {:?}, expected {:?}", op, got, want));
            if got != want {
                return Err(format!("after operation {} ({:?}) the text is {:?}, expected {:?}", i + 1, op, got, want));
            }
            if let Some((did, expected)) = ret {
                if did != expected && (expected || !o.empty) {
                    return Err(format!("operation {} ({:?}) returned {}, expected {}", i + 1, op, did, expected));
                }
            }
            st.state(&o);
        }
        // whatever was recorded: undo everything, redo everything
        if o.open == 0 {
            let mut texts = vec![o.text.clone()];
            while o.undo() {
                b.undo();
                texts.push(o.text.clone());
                st.steps += 1;
                if b.to_string() != model::st(&o.text) {
                    return Err(format!("undo number {} at the end gives {:?}, expected {:?}", texts.len() - 1, b.to_string(), model::st(&o.text)));
                }
            }
            if !o.empty && b.undo() {
                return Err("undo reports success with nothing left to undo".into());
            }
            if b.to_string() != model::st(&o.text) {
                return Err("undo changed the text with nothing left to undo".into());
            }
            texts.pop();
            while let Some(t) = texts.pop() {
                b.redo();
                o.redo();
                st.steps += 1;
                if b.to_string() != model::st(&t) {
                    return Err(format!("redo at the end gives {:?}, expected {:?}", b.to_string(), model::st(&t)));
                }
            }
            st.compared += 1;
        }
        Ok(seq.len())
    }
}

pub fn c06(ex: &mut Explorer) {
    ex.rule = "all sequences of buffer operations of the stated depth; an operation that is not possible ends the sequence; \
               after each, everything is undone and redone; a case is non-trivial by the state (text, steps, groups) reached"
        .into();
    use Op::*;
    let all = vec![
        InsFront, InsEnd, InsMid, InsNone, RemFirst, RemLast, RemMid, RemNone, Truncate(1), TruncateEnd, Start, End, Undo, Redo, Revert, Clear,
        Copy, Append, Truncate(0),
    ];
    let d = ex.pick(5, 7);
    ex.explore(&UndoSpace { name: "all operations", init: vec!["", "ab"], ops: all, depth: d });
    let d = ex.pick(9, 11);
    let few = vec![InsFront, RemMid, Start, End, Undo, Redo, Revert];
    ex.explore(&UndoSpace { name: "groups", init: vec!["ab"], ops: few, depth: d });
    let d = ex.pick(12, 14);
    ex.explore(&UndoSpace { name: "long", init: vec![""], ops: vec![InsEnd, Start, End, Undo, Redo], depth: d });
    let d = ex.pick(13, 16);
    ex.explore(&UndoSpace { name: "undo and redo", init: vec!["a"], ops: vec![InsEnd, Undo, Redo], depth: d });
    let many = vec![Many(1100), Many(70), UndoMany(60), UndoMany(1050), RedoMany(65), RedoMany(1090), Start, End, RemMid, Undo, Revert];
    ex.explore(&UndoSpace { name: "many changes", init: vec!["ab"], ops: many, depth: ex.pick(4, 5) });
}

// ---- C21

struct Words {
    alphabet: Vec<char>,
    depth: usize,
}

fn classify(c: usize, w: &[(usize, usize)]) -> CursorPosition {
    use CursorPosition::*;
    for (i, (s, e)) in w.iter().enumerate() {
        if c == *s {
            return OnWordLeftEdge(i);
        }
        if c == *e {
            return OnWordRightEdge(i);
        }
        if *s < c && c < *e {
            return InWord(i);
        }
    }
    let left = w.iter().rposition(|x| x.1 < c);
    let right = w.iter().position(|x| x.0 > c);
    InSpace(left, right)
}

impl Space for Words {
    fn name(&self) -> String {
        format!("every line over {:?}", self.alphabet)
    }
    fn configs(&self) -> usize {
        1
    }
    fn tokens(&self, _: usize) -> usize {
        self.alphabet.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, _: usize, seq: &[u16]) -> String {
        format!("line {:?}", seq.iter().map(|t| self.alphabet[*t as usize]).collect::<String>())
    }
    fn run(&self, _: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let x: Vec<char> = seq.iter().map(|t| self.alphabet[*t as usize]).collect();
        let b: Buffer = x.iter().cloned().collect();
        let got = liner::get_buffer_words(&b);
        let want = model::words(&x);
        st.steps += 1;
        st.note(|| format!("words {:?}, expected {:?}", got, want));
        if got != want {
            return Err(format!("the words are {:?}, expected {:?}", got, want));
        }
        for c in 0..=x.len() {
            let p = CursorPosition::get(c, got.iter().cloned());
            let q = classify(c, &want);
            st.steps += 1;
            if p != q {
                return Err(format!("the cursor at {} is {:?}, expected {:?}", c, p, q));
            }
        }
        st.state(&x);
        Ok(seq.len())
    }
}

/// Lists of words given as lengths of gaps and words: what a caller's own divider may return.
struct Divisions {
    depth: usize,
}

impl Space for Divisions {
    fn name(&self) -> String {
        "every list of up to 1 + depth / 2 words".into()
    }
    fn configs(&self) -> usize {
        3
    }
    fn tokens(&self, _: usize) -> usize {
        3
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        format!("leading gap {}, then lengths of words and gaps {:?} plus one", c, seq)
    }
    fn run(&self, c: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let mut w = vec![];
        let mut at = c;
        for (i, t) in seq.iter().enumerate() {
            let n = *t as usize + 1;
            if i % 2 == 0 {
                w.push((at, at + n));
            }
            at += n;
        }
        for cur in 0..at + 3 {
            let p = CursorPosition::get(cur, w.iter().cloned());
            let q = classify(cur, &w);
            st.steps += 1;
            if p != q {
                return Err(format!("with words {:?} the cursor at {} is {:?}, expected {:?}", w, cur, p, q));
            }
        }
        st.state(&(c, seq));
        Ok(seq.len())
    }
}

/// The editor's own answer, cursor moved to every place.
struct EditorWords {
    alphabet: Vec<char>,
    depth: usize,
}

impl Space for EditorWords {
    fn name(&self) -> String {
        "asked of the editor at every cursor position".into()
    }
    fn configs(&self) -> usize {
        1
    }
    fn tokens(&self, _: usize) -> usize {
        self.alphabet.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, _: usize, seq: &[u16]) -> String {
        format!("line {:?} in an editor", seq.iter().map(|t| self.alphabet[*t as usize]).collect::<String>())
    }
    fn run(&self, _: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let x: Vec<char> = seq.iter().map(|t| self.alphabet[*t as usize]).collect();
        let cfg = crate::drive::Cfg::emacs("words").init(&model::st(&x));
        let mut ctx = cfg.context();
        let mut s = crate::drive::Sut::start(&cfg, &mut ctx, None);
        for c in 0..=x.len() {
            s.ed.move_cursor_to(c).map_err(|e| e.to_string())?;
            let (w, p) = s.ed.get_words_and_cursor_position();
            let w: Vec<_> = w.collect();
            let want = model::words(&x);
            st.steps += 1;
            if w != want || p != classify(c, &want) {
                return Err(format!("cursor {}: {:?} {:?}, expected {:?} {:?}", c, w, p, want, classify(c, &want)));
            }
        }
        st.state(&x);
        Ok(seq.len())
    }
}

pub fn c21(ex: &mut Explorer) {
    ex.rule = "all lines of the stated length over the alphabet, and all cursor positions in them; cases are distinct by the line".into();
    let d = ex.pick(13, 15);
    ex.explore(&Words { alphabet: vec!['a', ' ', '\\'], depth: d });
    let d = ex.pick(7, 8);
    ex.explore(&Words { alphabet: vec!['a', 'é', ' ', '\\', '\t', '\n', '世', '"', '\u{a0}'], depth: d });
    // characters that mean something to shells, and other blanks
    let d = ex.pick(5, 6);
    ex.explore(&Words {
        alphabet: vec!['a', ' ', '\\', '\'', '`', '$', '(', '/', '\u{3000}', '\r', '\u{0}', '\u{301}', '1', '-', ';'],
        depth: d,
    });
    let d = ex.pick(9, 10);
    ex.explore(&Words { alphabet: vec!['a', ' ', '\\', '\'', '"'], depth: d });
    let d = ex.pick(8, 10);
    ex.explore(&Divisions { depth: d });
    let d = ex.pick(6, 8);
    ex.explore(&EditorWords { alphabet: vec!['a', ' ', '\\', 'é'], depth: d });
    // long lines: the same few words over and over
    let d = ex.pick(4, 5);
    ex.explore(&LongWords { name: "long lines", of: LONG, depth: d });
    ex.explore(&LongWords { name: "longer lines", of: LONGER, depth: ex.pick(3, 4) });
}

struct LongWords {
    name: &'static str,
    of: &'static [(&'static str, usize)],
    depth: usize,
}

impl Space for LongWords {
    fn name(&self) -> String {
        self.name.into()
    }
    fn configs(&self) -> usize {
        1
    }
    fn tokens(&self, _: usize) -> usize {
        self.of.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, _: usize, seq: &[u16]) -> String {
        format!("line made of {:?}", seq.iter().map(|t| self.of[*t as usize]).collect::<Vec<_>>())
    }
    fn run(&self, _: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let s: String = seq.iter().map(|t| self.of[*t as usize].0.repeat(self.of[*t as usize].1)).collect();
        let x = model::t(&s);
        let got = liner::get_buffer_words(&Buffer::from(&s[..]));
        let want = model::words(&x);
        st.steps += 1;
        if got != want {
            return Err(format!("the words are {:?}, expected {:?}", got, want));
        }
        for c in 0..=x.len() {
            st.steps += 1;
            if CursorPosition::get(c, got.iter().cloned()) != classify(c, &want) {
                return Err(format!("the cursor at {}", c));
            }
        }
        st.state(&s);
        Ok(seq.len())
    }
}

const LONG: &[(&str, usize)] = &[("a", 70), (" ", 40), ("ab ", 30), ("\\ ", 35), ("\\", 33), ("x\\  ", 9), ("é", 1)];

const LONGER: &[(&str, usize)] = &[("a", 1030), (" ", 300), ("ab ", 300), ("\\ ", 260), ("世  ", 130), ("x\\", 520)];

// ---- C22

struct Text {
    name: &'static str,
    alphabet: Vec<&'static str>,
    depth: usize,
    /// Everything about pairs of ranges and pairs of buffers.
    others: Vec<&'static str>,
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Takes at most two bytes at a time, and is interrupted in between.
struct Slow(Vec<u8>, bool);
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 = !self.1;
        if self.1 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(2);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn width(s: &str) -> Vec<usize> {
    use unicode_width::UnicodeWidthStr;
    s.split('\n').map(|l| l.width()).collect()
}

impl Space for Text {
    fn name(&self) -> String {
        self.name.into()
    }
    fn configs(&self) -> usize {
        1
    }
    fn tokens(&self, _: usize) -> usize {
        self.alphabet.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, _: usize, seq: &[u16]) -> String {
        format!("text {:?}", seq.iter().map(|t| self.alphabet[*t as usize]).collect::<String>())
    }
    fn run(&self, _: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let s: String = seq.iter().map(|t| self.alphabet[*t as usize]).collect();
        let x = model::t(&s);
        let n = x.len();
        let b = Buffer::from(&s[..]);
        macro_rules! eq {
            ($what:expr, $got:expr, $want:expr) => {{
                st.steps += 1;
                match (&$got, &$want) {
                    (g, w) if *g != *w => return Err(format!("{} is {:?}, expected {:?}", $what, g, w)),
                    _ => {}
                }
            }};
        }
        // long texts are looked at in some places
        let mut pos: Vec<usize> = (0..=n).collect();
        if n > 40 {
            let some = [0, 1, 2, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 1100, n / 2, n - 1, n];
            pos.retain(|i| some.contains(i));
        }
        let pos = &pos[..];
        let sub = |s: usize, e: usize| x[s..e].iter().collect::<String>();
        eq!("String::from(buffer)", String::from(b.clone()), s);
        eq!("to_string", b.to_string(), s);
        eq!("a buffer from a String", Buffer::from(s.clone()).to_string(), s);
        eq!("a buffer from chars", x.iter().cloned().collect::<Buffer>().to_string(), s);
        eq!("num_chars", b.num_chars(), n);
        eq!("num_bytes", b.num_bytes(), s.len());
        eq!("as_bytes", b.as_bytes(), s.as_bytes().to_vec());
        eq!("is_empty", b.is_empty(), s.is_empty());
        eq!("chars", b.chars().cloned().collect::<Vec<_>>(), x);
        eq!("lines", b.lines(), s.split('\n').map(|l| l.to_string()).collect::<Vec<_>>());
        eq!("width", b.width(), width(&s));
        eq!("last_arg", b.last_arg().map(|a| model::st(a)), s.split(' ').filter(|w| !w.is_empty()).last().map(|w| w.to_string()));
        for c in pos.iter().cloned().chain([n + 1, n + 2]) {
            eq!(format!("char_before({})", c), b.char_before(c), if c > 0 { x.get(c - 1).copied() } else { None });
            eq!(format!("char_after({})", c), b.char_after(c), x.get(c).copied());
            let mut out = vec![];
            let r = b.print_rest(&mut out, c).map_err(|e| e.to_string())?;
            let rest = if c <= n { sub(c, n) } else { String::new() };
            eq!(format!("print_rest({})", c), (r, out), (rest.len(), rest.clone().into_bytes()));
            let mut slow = Slow(vec![], false);
            b.print_rest(&mut slow, c).map_err(|e| e.to_string())?;
            eq!(format!("print_rest({}) to a slow writer", c), slow.0, rest.into_bytes());
        }
        let mut slow = Slow(vec![], false);
        b.print(&mut slow).map_err(|e| e.to_string())?;
        eq!("print", slow.0, s.as_bytes().to_vec());
        for &i in pos {
            for &j in pos.iter().filter(|j| **j >= i) {
                eq!(format!("range({}, {})", i, j), b.range(i, j), sub(i, j));
                eq!(format!("range_chars({}, {})", i, j), b.range_chars(i, j), x[i..j].to_vec());
                eq!(format!("range_width({}, {})", i, j), b.range_width(i, j), width(&sub(i, j)));
                let mut r = b.clone();
                let k = r.remove(i, j);
                eq!(format!("remove({}, {})", i, j), (k, r.to_string()), (j - i, sub(0, i) + &sub(j, n)));
                r.undo();
                eq!(format!("undo of remove({}, {})", i, j), r.to_string(), s);
                eq!("equality after an undone edit", r == b, true);
                eq!("the hash after an undone edit", hash(&r), hash(&b));
            }
            let mut r = b.clone();
            r.truncate(i);
            eq!(format!("truncate({})", i), r.to_string(), sub(0, i));
            let part = Buffer::from(&sub(0, i)[..]);
            eq!("equality of equal texts", r == part, true);
            eq!("the hash of equal texts", hash(&r), hash(&part));
            for o in &self.others {
                let mut r = b.clone();
                r.insert(i, &model::t(o));
                eq!(format!("insert({}, {:?})", i, o), r.to_string(), sub(0, i) + o + &sub(i, n));
                r.undo();
                eq!("undo of an insertion", r.to_string(), s);
                r.redo();
                eq!("redo of an insertion", r.to_string(), sub(0, i) + o + &sub(i, n));
            }
            let mut r = part.clone();
            r.insert_from_buffer(&b);
            eq!(format!("insert_from_buffer into the first {}", i), r.to_string(), s);
        }
        for o in &self.others {
            let ob = Buffer::from(*o);
            eq!(format!("== {:?}", o), b == ob, s == *o);
            let y = model::t(o);
            eq!(format!("starts_with({:?})", o), b.starts_with(&ob), model::extends(&x, &y));
            eq!(format!("{:?} starts_with", o), ob.starts_with(&b), model::extends(&y, &x));
            eq!(format!("contains({:?})", o), b.contains(&ob), !o.is_empty() && s.contains(o));
            eq!(format!("{:?} contains", o), ob.contains(&b), !s.is_empty() && o.contains(&s));
            let mut r = b.clone();
            r.copy_buffer(&ob);
            eq!(format!("copy_buffer({:?})", o), r.to_string(), o.to_string());
            eq!("equality with the copied buffer", r == ob, true);
            eq!("the hash of the copied buffer", hash(&r), hash(&ob));
        }
        // every sub-range of itself is contained, and every proper beginning is a beginning
        for &i in pos {
            for &j in pos.iter().filter(|j| **j >= i) {
                let p = Buffer::from(&sub(i, j)[..]);
                eq!(format!("contains its range {}..{}", i, j), b.contains(&p), i < j);
            }
            let p = Buffer::from(&sub(0, i)[..]);
            eq!(format!("starts_with its first {}", i), b.starts_with(&p), i > 0 && i < n);
        }
        st.state(&s);
        Ok(seq.len())
    }
}

pub fn c22(ex: &mut Explorer) {
    ex.rule = "all texts of the stated length over the alphabet; every query and edit with every position and range of the text, and \
               with every other text of a fixed list; cases are distinct by the text"
        .into();
    let d = ex.pick(7, 8);
    let others = vec!["", "a", "aa", "ab", "ba", " ", "\n", "é", "a b", "aab", "b\na", "abab", "aaaaaaaaaa"];
    ex.explore(&Text { name: "short texts", alphabet: vec!["a", "b", " ", "\n", "é"], depth: d, others: others.clone() });
    let d = ex.pick(4, 5);
    let odd = vec!["a", " ", "\n", "世", "\u{301}", "\u{200d}", "\t", "\\", "\u{1f600}", "\u{0}", "\r"];
    let more = [others, vec!["世", "\u{301}", "a\u{301}", "世\u{1f600}"]].concat();
    ex.explore(&Text { name: "odd characters", alphabet: odd, depth: d, others: more });
    // long texts
    let d = ex.pick(3, 4);
    let long = vec!["aaaaaaaaaaaaaaaaaaaaaaaab", "\n\n\n", "世é世é世é世é", "      ", "ab ab\nab ab ", "x"];
    ex.explore(&Text { name: "long texts", alphabet: long, depth: d, others: vec!["", "aaaaab", "ab ab\nab ab ab ab\nab", "世é", "ba", "bx", "  \n"] });
    let leak = |s: &str, n: usize| -> &'static str { Box::leak(s.repeat(n).into_boxed_str()) };
    let longer = vec![leak("a", 260), leak("ab cd ", 90), leak("é", 130), leak("\n", 70), leak("世", 1030), "x", " "];
    ex.explore(&Text { name: "longer texts", alphabet: longer, depth: ex.pick(3, 4), others: vec!["", "aaab", "d ab", "世é", "é世x", leak("a", 259)] });
}
