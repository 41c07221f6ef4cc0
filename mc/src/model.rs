//! Reference model of the line editor: what each key is documented to do, on plain text, with undo as snapshots.
//! Shares no code and no representation with the implementation.
use liner::Key;

pub type Text = Vec<char>;

pub fn t(s: &str) -> Text {
    s.chars().collect()
}
pub fn st(s: &[char]) -> String {
    s.iter().collect()
}

/// A line with its undo steps: the texts to go back to.
#[derive(Clone, Debug, Default)]
pub struct Line {
    pub text: Text,
    pub steps: Vec<Text>,
    /// The texts to go forward to again.
    pub redone: Vec<Text>,
    /// Text at the start of the open group, and whether anything was edited since.
    pub group: Option<(Text, bool)>,
}

impl Line {
    fn new(t: Text) -> Line {
        Line { text: t, steps: vec![], redone: vec![], group: None }
    }
    fn set(&mut self, new: Text) {
        let old = std::mem::replace(&mut self.text, new);
        self.redone.clear();
        match &mut self.group {
            Some(g) => g.1 = true,
            None => self.steps.push(old),
        }
    }
    fn open(&mut self) {
        if self.group.is_none() {
            self.group = Some((self.text.clone(), false));
        }
    }
    fn close(&mut self) {
        if let Some((base, true)) = self.group.take() {
            self.steps.push(base);
        }
    }
    pub fn undo(&mut self) -> bool {
        match self.steps.pop() {
            Some(s) => {
                self.redone.push(std::mem::replace(&mut self.text, s));
                true
            }
            None => false,
        }
    }
    pub fn redo(&mut self) -> bool {
        match self.redone.pop() {
            Some(s) => {
                self.steps.push(std::mem::replace(&mut self.text, s));
                true
            }
            None => false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Search {
    pub forward: bool,
    pub matches: Vec<usize>,
    pub pos: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out {
    Cont,
    Done,
    Interrupted,
    Eof,
    /// The key map's own error.
    Failed(std::io::ErrorKind),
}

#[derive(Clone, Debug)]
pub struct Dot {
    cmd: Vec<Key>,
    typed: Vec<Key>,
    count: u32,
    insert: bool,
}

#[derive(Clone, Debug)]
pub struct Session {
    count: u32,
    moved: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Find {
    F,
    T,
    BackF,
    BackT,
}

#[derive(Clone, Debug)]
pub struct Vi {
    /// Some: insert mode.
    pub ins: Option<Session>,
    pub pending: Vec<Key>,
    pub dot: Option<Dot>,
    pub find: Option<(char, Find)>,
    aborted: bool,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub vi: Option<Vi>,
    pub hist: Vec<Text>,
    pub new: Line,
    pub loc: Option<usize>,
    /// The copy of the recalled entry, once edited.
    pub copy: Option<Line>,
    pub cur: usize,
    pub nav: Option<(Vec<usize>, usize)>,
    pub search: Option<Search>,
    pub list: Option<(Vec<String>, Option<(usize, usize)>)>,
    pub cands: Vec<String>,
    /// The candidates are the names of files in this directory.
    pub files: Option<std::path::PathBuf>,
    /// All candidates are offered, whatever the word is.
    pub unfiltered: bool,
    pub div: Div,
    /// Entry last taken from by Alt-. and how many characters it put before the cursor.
    pub arg: Option<(usize, usize)>,
    /// The documentation leaves the cursor open after this key.
    pub cursor_open: bool,
    /// The documentation leaves open what this key (or what follows it) does.
    pub open: bool,
    /// The screen was cleared by this key.
    pub cleared: bool,
    /// An interrupted line ends as an entered one does (else it goes on below a backslash).
    pub ended: bool,
    /// Times completion was asked for, with the word.
    pub asked: Vec<String>,
    /// A program's own key map, with its state.
    pub own: Option<usize>,
    /// Keys handed to it.
    pub handed: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Mo {
    Key(Key),
    Find(Find, char),
    Again(bool),
    BackEnd(bool),
}

enum Cmd {
    Move(Mo),
    Op(bool, Mo),
    Whole(bool),
    Replace(char),
    Simple(Key),
    Up,
    Down,
    Unbound,
}

enum Parsed {
    More,
    Abort,
    Cmd(u32, Cmd),
}

/// How a program has the line divided into words.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Div {
    Usual,
    /// At slashes and blanks.
    Slashes,
    /// The line is one word, blanks at its ends aside.
    Whole,
    /// There are no words.
    Never,
    /// Runs of letters, or of digits.
    Letters,
    /// At blanks outside of quotes.
    Quoted,
}

pub fn divide(d: Div, x: &[char]) -> Vec<(usize, usize)> {
    let runs = |part: &dyn Fn(usize) -> bool| {
        let mut v = vec![];
        let mut i = 0;
        while i < x.len() {
            let s = i;
            while i < x.len() && part(i) {
                i += 1;
            }
            if i > s {
                v.push((s, i));
            } else {
                i += 1;
            }
        }
        v
    };
    match d {
        Div::Usual => words(x),
        Div::Slashes => runs(&|i| x[i] != '/' && x[i] != ' '),
        Div::Whole => {
            let s = x.iter().position(|c| *c != ' ');
            s.map_or(vec![], |s| vec![(s, x.iter().rposition(|c| *c != ' ').unwrap() + 1)])
        }
        Div::Never => vec![],
        Div::Letters => runs(&|i| x[i].is_alphabetic()),
        // blanks within quotes belong to the word
        Div::Quoted => runs(&|i| x[i] != ' ' || x[..i].iter().filter(|c| **c == '\'').count() % 2 == 1),
    }
}

pub fn words(x: &[char]) -> Vec<(usize, usize)> {
    let blank = |i: usize| x[i] == ' ' && (i == 0 || x[i - 1] != '\\');
    let mut v = vec![];
    let mut i = 0;
    while i < x.len() {
        if blank(i) {
            i += 1;
            continue;
        }
        let s = i;
        while i < x.len() && !blank(i) {
            i += 1;
        }
        v.push((s, i));
    }
    v
}

fn prefix_len(a: &[char], b: &[char]) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x == y).count()
}

pub fn extends(longer: &[char], shorter: &[char]) -> bool {
    !shorter.is_empty() && longer.len() > shorter.len() && longer.starts_with(shorter)
}

pub fn contains(x: &[char], term: &[char]) -> bool {
    !term.is_empty() && x.windows(term.len()).any(|w| w == term)
}

fn class(c: char, big: bool) -> u8 {
    if c.is_whitespace() {
        0
    } else if big || c == '_' || c.is_alphanumeric() {
        1
    } else {
        2
    }
}

fn is_motion(k: Key) -> bool {
    match k {
        Key::Char(c) => "hlwWbBeE ^$;,".contains(c),
        Key::Left | Key::Right | Key::Backspace | Key::Home | Key::End => true,
        _ => false,
    }
}

fn find_of(k: Key) -> Option<Find> {
    match k {
        Key::Char('f') => Some(Find::F),
        Key::Char('t') => Some(Find::T),
        Key::Char('F') => Some(Find::BackF),
        Key::Char('T') => Some(Find::BackT),
        _ => None,
    }
}

/// A motion, from keys that start with it: None if there is none, Some(None) if it is not complete.
fn parse_motion(k: &[Key]) -> Result<Option<Mo>, ()> {
    if let Some(f) = find_of(k[0]) {
        return match k.get(1) {
            None => Ok(None),
            Some(Key::Char(c)) => Ok(Some(Mo::Find(f, *c))),
            Some(_) => Err(()),
        };
    }
    match k[0] {
        Key::Char('g') => match k.get(1) {
            None => Ok(None),
            Some(Key::Char('e')) => Ok(Some(Mo::BackEnd(false))),
            Some(Key::Char('E')) => Ok(Some(Mo::BackEnd(true))),
            Some(_) => Err(()),
        },
        Key::Char(';') => Ok(Some(Mo::Again(false))),
        Key::Char(',') => Ok(Some(Mo::Again(true))),
        Key::Char('0') => Ok(Some(Mo::Key(Key::Home))),
        x if is_motion(x) => Ok(Some(Mo::Key(x))),
        _ => Err(()),
    }
}

fn number(k: &[Key]) -> (u32, usize) {
    let mut n = 0u32;
    let mut i = 0;
    while let Some(Key::Char(c)) = k.get(i) {
        match c.to_digit(10) {
            Some(d) if c.is_ascii_digit() && (i > 0 || d > 0) => n = n.saturating_mul(10).saturating_add(d),
            _ => break,
        }
        i += 1;
    }
    (n, i)
}

fn parse(k: &[Key]) -> Parsed {
    let (n, i) = number(k);
    let k = &k[i..];
    let first = match k.first() {
        None => return Parsed::More,
        Some(f) => *f,
    };
    match first {
        Key::Esc | Key::Ctrl('[') => Parsed::Abort,
        Key::Char(o @ ('d' | 'c')) => {
            let (m, j) = number(&k[1..]);
            let r = &k[1 + j..];
            let n = match (n, m) {
                (0, m) => m,
                (n, 0) => n,
                (n, m) => n.saturating_mul(m),
            };
            match r.first() {
                None => Parsed::More,
                Some(Key::Char(c)) if *c == o => Parsed::Cmd(0, Cmd::Whole(o == 'c')),
                Some(_) => match parse_motion(r) {
                    Ok(None) => Parsed::More,
                    Ok(Some(m)) => Parsed::Cmd(n, Cmd::Op(o == 'c', m)),
                    Err(()) => Parsed::Abort,
                },
            }
        }
        Key::Char('r') => match k.get(1) {
            None => Parsed::More,
            Some(Key::Char(c)) => Parsed::Cmd(n, Cmd::Replace(*c)),
            Some(_) => Parsed::Abort,
        },
        Key::Char('j') | Key::Down => Parsed::Cmd(n, Cmd::Down),
        Key::Char('k') | Key::Up => Parsed::Cmd(n, Cmd::Up),
        Key::Char(c) if "u.x~DCsiaIA".contains(c) => Parsed::Cmd(n, Cmd::Simple(first)),
        Key::Delete => Parsed::Cmd(n, Cmd::Simple(Key::Char('x'))),
        Key::Ctrl('l') | crate::drive::VI_REDO => Parsed::Cmd(n, Cmd::Simple(first)),
        _ if find_of(first).is_some() || first == Key::Char('g') || first == Key::Char('0') || is_motion(first) => {
            match parse_motion(k) {
                Ok(None) => Parsed::More,
                Ok(Some(m)) => Parsed::Cmd(n, Cmd::Move(m)),
                Err(()) => Parsed::Abort,
            }
        }
        _ => Parsed::Cmd(n, Cmd::Unbound),
    }
}

impl Model {
    pub fn new(vi: bool, hist: &[String], init: &str, cands: &[String]) -> Model {
        let mut m = Model {
            vi: None,
            hist: hist.iter().map(|h| t(h)).collect(),
            new: Line::new(t(init)),
            loc: None,
            copy: None,
            cur: init.chars().count(),
            nav: None,
            search: None,
            list: None,
            cands: cands.to_vec(),
            files: None,
            unfiltered: false,
            div: Div::Usual,
            arg: None,
            cursor_open: false,
            open: false,
            cleared: false,
            ended: false,
            asked: vec![],
            own: None,
            handed: vec![],
        };
        if vi {
            m.new.open();
            m.vi = Some(Vi {
                ins: Some(Session { count: 0, moved: false }),
                pending: vec![],
                dot: Some(Dot { cmd: vec![Key::Char('i')], typed: vec![], count: 0, insert: true }),
                find: None,
                aborted: false,
            });
        }
        m
    }

    pub fn text(&self) -> &Text {
        match self.loc {
            None => &self.new.text,
            Some(i) => match &self.copy {
                Some(c) => &c.text,
                None => &self.hist[i],
            },
        }
    }

    pub fn line(&mut self) -> &mut Line {
        match self.loc {
            None => &mut self.new,
            Some(i) => {
                let h = &self.hist[i];
                self.copy.get_or_insert_with(|| Line::new(h.clone()))
            }
        }
    }

    pub fn normal(&self) -> bool {
        self.vi.as_ref().map_or(false, |v| v.ins.is_none())
    }

    pub fn pending(&self) -> bool {
        self.vi.as_ref().map_or(false, |v| !v.pending.is_empty())
    }

    pub fn clamp(&mut self) {
        let n = self.text().len();
        self.cur = self.cur.min(n);
        if self.normal() && self.cur == n && n > 0 {
            self.cur = n - 1;
        }
    }

    /// What is shown beyond the line: while searching the current match, otherwise the newest extending entry.
    pub fn offered(&self) -> Option<&Text> {
        if let Some(s) = &self.search {
            return s.matches.get(s.pos).map(|i| &self.hist[*i]);
        }
        if self.loc.is_some() {
            return None;
        }
        self.hist.iter().rev().find(|h| extends(h, &self.new.text))
    }

    pub fn edit(&mut self, start: usize, end: usize, with: &[char]) {
        let x = self.text();
        let mut y = x[..start].to_vec();
        y.extend_from_slice(with);
        y.extend_from_slice(&x[end..]);
        self.line().set(y);
    }

    pub fn insert(&mut self, with: &[char]) {
        let c = self.cur;
        self.edit(c, c, with);
        self.cur += with.len();
    }

    pub fn remove(&mut self, start: usize, end: usize) {
        if start < end {
            self.edit(start, end, &[]);
        }
        self.cur = start;
    }

    // ---- history

    pub fn up(&mut self) {
        if self.search.is_some() {
            return self.step(false);
        }
        self.copy = None;
        if self.new.text.is_empty() {
            match self.loc {
                None if !self.hist.is_empty() => self.loc = Some(self.hist.len() - 1),
                Some(i) if i > 0 => self.loc = Some(i - 1),
                _ => {}
            }
        } else {
            match &mut self.nav {
                Some((v, p)) => {
                    if *p + 1 < v.len() {
                        *p += 1;
                    }
                    self.loc = Some(v[*p]);
                }
                None => {
                    if self.loc.is_some() {
                        self.open = true;
                    }
                    let n = &self.new.text;
                    let mut v: Vec<usize> =
                        (0..self.hist.len()).rev().filter(|i| extends(&self.hist[*i], n)).collect();
                    v.extend((0..self.hist.len()).rev().filter(|i| {
                        let h = &self.hist[*i];
                        contains(h, n) && !extends(h, n) && h != n
                    }));
                    if !v.is_empty() {
                        self.loc = Some(v[0]);
                        self.nav = Some((v, 0));
                    }
                }
            }
        }
        self.cur = self.text().len();
    }

    pub fn down(&mut self) {
        if self.search.is_some() {
            return self.step(true);
        }
        self.copy = None;
        if self.new.text.is_empty() {
            self.loc = match self.loc {
                Some(i) if i + 1 < self.hist.len() => Some(i + 1),
                _ => None,
            };
        } else {
            match self.nav.take() {
                Some((v, p)) if p > 0 => {
                    self.loc = Some(v[p - 1]);
                    self.nav = Some((v, p - 1));
                }
                Some(_) => self.loc = None,
                None => {
                    if self.loc.is_some() {
                        self.open = true;
                    }
                }
            }
        }
        self.cur = self.text().len();
    }

    // ---- search

    fn step(&mut self, forward: bool) {
        if let Some(s) = &mut self.search {
            let n = s.matches.len();
            if n > 0 {
                s.pos = if forward { (s.pos + 1) % n } else { (s.pos + n - 1) % n };
            }
        }
    }

    fn search_for(&mut self, forward: bool, near: Option<usize>) {
        let matches: Vec<usize> =
            (0..self.hist.len()).filter(|i| contains(&self.hist[*i], &self.new.text)).collect();
        let mut pos = if forward { 0 } else { matches.len().saturating_sub(1) };
        if let Some(x) = near {
            // stay, or go to the next one in the direction of the search
            let at_or_after = matches.iter().position(|m| *m >= x);
            pos = match at_or_after {
                Some(i) if forward || matches[i] == x => i,
                Some(i) => i.saturating_sub(1),
                None => pos,
            };
        }
        self.search = Some(Search { forward, matches, pos });
        // the term is edited in the new line
        self.loc = None;
        self.copy = None;
    }

    pub fn search_key(&mut self, forward: bool) {
        if self.search.is_some() {
            return self.step(forward);
        }
        let near = self.nav.take().map(|(v, p)| v[p]);
        let insert = self.vi.as_ref().map_or(false, |v| v.ins.is_some());
        self.search_for(forward, near);
        if insert {
            self.new.open();
        }
    }

    pub fn accept(&mut self) {
        let searching = self.search.is_some();
        if let Some(o) = self.offered().cloned() {
            if searching {
                // two changes: the term goes, the entry comes
                self.line().set(vec![]);
                self.line().set(o);
            } else {
                self.line().set(o);
            }
        }
        self.search = None;
        self.nav = None;
        self.cur = self.text().len();
    }

    // ---- completion

    fn word_start(&self) -> usize {
        divide(self.div, self.text()).iter().find(|(s, e)| *s < self.cur && self.cur <= *e).map_or(self.cur, |w| w.0)
    }

    fn put(&mut self, start: usize, s: &str) {
        let s = t(s);
        if self.text()[start..self.cur] != s[..] {
            let c = self.cur;
            self.edit(start, c, &s);
            self.cur = start + s.len();
        }
    }

    pub fn tab(&mut self) {
        if let Some((l, at)) = self.list.take() {
            let (i, start) = match at {
                None => (0, self.word_start()),
                Some((i, s)) => {
                    // the whole completed word, even where the cursor cannot stand behind it
                    self.cur = s + l[i].chars().count();
                    ((i + 1) % l.len(), s)
                }
            };
            self.put(start, &l[i].clone());
            self.list = Some((l, Some((i, start))));
            return;
        }
        let start = self.word_start();
        let word = st(&self.text()[start..self.cur]);
        self.asked.push(word.clone());
        let mut c: Vec<String> = match &self.files {
            Some(d) => crate::props::names::expected(&word, d, true),
            None => self.cands.iter().filter(|c| self.unfiltered || c.starts_with(&word)).cloned().collect(),
        };
        c.sort();
        c.dedup();
        match c.len() {
            0 => {}
            1 => self.put(start, &c[0].clone()),
            _ => {
                let first = t(&c[0]);
                let n = c.iter().map(|x| prefix_len(&first, &t(x))).min().unwrap();
                if n > word.chars().count() {
                    if !first.starts_with(&t(&word)) {
                        // longer, but no extension
                        self.open = true;
                    }
                    self.put(start, &st(&first[..n]));
                } else {
                    self.list = Some((c, None));
                }
            }
        }
    }

    // ---- keys

    pub fn enter(&mut self) -> Out {
        if self.list.take().is_some() {
            return Out::Cont;
        }
        if self.search.is_some() {
            self.accept();
            self.clamp();
        }
        if self.cur > 0 && self.text()[self.cur - 1] == '\\' {
            self.insert(&['\n']);
            Out::Cont
        } else {
            self.search = None;
            self.nav = None;
            self.cur = self.text().len();
            Out::Done
        }
    }

    pub fn at_end(&self) -> bool {
        let n = self.text().len();
        if self.normal() {
            self.cur + 1 >= n
        } else {
            self.cur == n
        }
    }

    pub fn key(&mut self, k: Key) -> Out {
        self.cursor_open = false;
        self.cleared = false;
        self.ended = false;
        let k = if k == Key::Ctrl('h') { Key::Backspace } else { k };
        if k != Key::Alt('.') {
            self.arg = None;
        }
        if k != Key::Char('\t') && k != Key::Char('\n') {
            self.list = None;
        }
        let shared = matches!(
            k,
            Key::Ctrl('c') | Key::Char('\t') | Key::Char('\n') | Key::Ctrl('r') | Key::Ctrl('s')
        ) || (k == Key::Ctrl('d') && self.text().is_empty())
            || (k == Key::Ctrl('f') && self.offered().is_some())
            || (k == Key::Right && self.offered().is_some() && self.at_end());
        if shared && self.pending() {
            self.open = true;
        }
        let before = self.new.text.clone();
        let out = if shared {
            match k {
                Key::Ctrl('c') => {
                    self.ended = self.enter() == Out::Done;
                    Out::Interrupted
                }
                Key::Ctrl('d') => {
                    self.ended = self.enter() == Out::Done;
                    Out::Eof
                }
                Key::Char('\t') => {
                    self.tab();
                    Out::Cont
                }
                Key::Char('\n') => self.enter(),
                Key::Ctrl('r') => {
                    self.search_key(false);
                    Out::Cont
                }
                Key::Ctrl('s') => {
                    self.search_key(true);
                    Out::Cont
                }
                _ => {
                    self.accept();
                    Out::Cont
                }
            }
        } else if self.own.is_some() {
            // refines a search with every call
            return crate::props::own::model(self, k);
        } else {
            if self.vi.is_some() {
                self.vi_key(k);
            } else {
                self.emacs_key(k);
            }
            Out::Cont
        };
        self.refine(&before);
        self.clamp();
        out
    }

    /// A search goes on with the term as it is now.
    pub fn refine(&mut self, before: &Text) {
        if self.search.is_some() && self.new.text != *before {
            let (f, near) = {
                let s = self.search.as_ref().unwrap();
                (s.forward, s.matches.get(s.pos).copied())
            };
            self.search_for(f, near);
        }
    }

    pub fn clear(&mut self) {
        self.search = None;
        self.cleared = true;
    }

    pub fn emacs_key(&mut self, k: Key) {
        let n = self.text().len();
        let c = self.cur;
        match k {
            Key::Char(ch) => self.insert(&[ch]),
            Key::Backspace => {
                if c > 0 {
                    self.remove(c - 1, c)
                }
            }
            Key::Delete | Key::Ctrl('d') => {
                if c < n {
                    self.remove(c, c + 1)
                }
            }
            Key::Left | Key::Ctrl('b') => self.cur = c.saturating_sub(1),
            Key::Right | Key::Ctrl('f') => self.cur = (c + 1).min(n),
            Key::Home | Key::Ctrl('a') => self.cur = 0,
            Key::End | Key::Ctrl('e') => self.cur = n,
            Key::Ctrl('u') => self.remove(0, c),
            Key::Ctrl('k') => self.remove(c, n),
            Key::Ctrl('w') | Key::Alt('\x7f') => {
                if let Some(w) = divide(self.div, self.text()).iter().rev().find(|w| w.0 < c) {
                    let s = w.0;
                    self.remove(s, c);
                }
            }
            Key::Alt('b') => {
                if let Some(w) = divide(self.div, self.text()).iter().rev().find(|w| w.0 < c) {
                    self.cur = w.0;
                }
            }
            Key::Alt('f') => {
                if let Some(w) = divide(self.div, self.text()).iter().find(|w| w.1 > c) {
                    self.cur = w.1;
                }
            }
            Key::Up | Key::Ctrl('p') => self.up(),
            Key::Down | Key::Ctrl('n') => self.down(),
            Key::Ctrl('l') => self.clear(),
            Key::Ctrl('x') => {
                if self.line().undo() {
                    self.cur = self.text().len();
                } else {
                    self.cursor_open = true;
                }
            }
            Key::Alt('r') => {
                let mut did = false;
                while self.line().undo() {
                    did = true;
                }
                if did {
                    self.cur = self.text().len();
                } else {
                    self.cursor_open = true;
                }
            }
            Key::Alt('<') => {
                self.search = None;
                self.nav = None;
                self.copy = None;
                if self.hist.is_empty() {
                    self.loc = None;
                } else {
                    self.loc = Some(0);
                    self.cur = self.text().len();
                }
            }
            Key::Alt('>') => {
                self.search = None;
                self.nav = None;
                self.copy = None;
                if self.loc.take().is_some() {
                    self.cur = self.text().len();
                }
            }
            Key::Alt('.') => {
                if self.hist.is_empty() {
                    return;
                }
                let (i, len) = match self.arg {
                    Some((0, _)) => return,
                    Some((i, len)) => (i - 1, len),
                    None => (self.loc.unwrap_or(self.hist.len() - 1), 0),
                };
                let arg: String =
                    st(&self.hist[i]).split(' ').filter(|w| !w.is_empty()).last().unwrap_or("").to_string();
                self.put(c - len, &arg);
                self.arg = Some((i, arg.chars().count()));
            }
            _ => {}
        }
    }

    fn vi_key(&mut self, k: Key) {
        if self.vi.as_ref().unwrap().ins.is_some() {
            return self.vi_insert(k);
        }
        let v = self.vi.as_mut().unwrap();
        v.pending.push(k);
        match parse(&v.pending) {
            Parsed::More => {}
            Parsed::Abort => {
                v.pending.clear();
                v.aborted = true;
            }
            Parsed::Cmd(n, c) => {
                let keys = std::mem::take(&mut v.pending);
                self.vi_command(n, c, keys);
            }
        }
    }

    fn vi_insert(&mut self, k: Key) {
        let n = self.text().len();
        let c = self.cur;
        match k {
            Key::Esc | Key::Ctrl('[') => {
                let v = self.vi.as_mut().unwrap();
                let count = v.ins.as_ref().unwrap().count;
                if count > 0 {
                    v.dot.as_mut().unwrap().count = count;
                    let typed = v.dot.as_ref().unwrap().typed.clone();
                    for _ in 1..count {
                        for k in &typed {
                            self.vi_type(*k);
                        }
                    }
                }
                self.cur = self.cur.saturating_sub(1);
                self.line().close();
                self.vi.as_mut().unwrap().ins = None;
            }
            Key::Char(_) | Key::Backspace | Key::Delete => {
                if self.vi.as_ref().unwrap().ins.as_ref().unwrap().moved {
                    self.line().close();
                    self.line().open();
                    let v = self.vi.as_mut().unwrap();
                    v.ins.as_mut().unwrap().moved = false;
                    v.dot = Some(Dot { cmd: vec![Key::Char('i')], typed: vec![], count: 0, insert: true });
                }
                self.vi.as_mut().unwrap().dot.as_mut().unwrap().typed.push(k);
                self.vi_type(k);
            }
            Key::Left | Key::Right | Key::Home | Key::End => {
                self.cur = match k {
                    Key::Left => c.saturating_sub(1),
                    Key::Right => (c + 1).min(n),
                    Key::Home => 0,
                    _ => n,
                };
                let s = self.vi.as_mut().unwrap().ins.as_mut().unwrap();
                s.count = 0;
                s.moved = true;
            }
            Key::Up | Key::Down => {
                self.line().close();
                if k == Key::Up {
                    self.up()
                } else {
                    self.down()
                }
                self.line().open();
                let s = self.vi.as_mut().unwrap().ins.as_mut().unwrap();
                s.count = 0;
                s.moved = true;
            }
            Key::Ctrl('l') => self.clear(),
            _ => {}
        }
    }

    fn vi_type(&mut self, k: Key) {
        let c = self.cur;
        match k {
            Key::Char(ch) => self.insert(&[ch]),
            Key::Backspace => {
                if c > 0 {
                    self.remove(c - 1, c)
                }
            }
            _ => {
                if c < self.text().len() {
                    self.remove(c, c + 1)
                }
            }
        }
    }

    /// Where a motion goes, at most to the end of the text, and whether the character there belongs to it.
    fn target(&mut self, m: Mo, count: u32) -> Option<(usize, bool)> {
        let x = self.text().clone();
        let n = x.len();
        let c = self.cur;
        let many = count.max(1).min(100_000) as usize;
        let v = self.vi.as_mut().unwrap();
        let find = match m {
            Mo::Find(f, ch) => {
                v.find = Some((ch, f));
                Some((ch, f))
            }
            Mo::Again(back) => {
                let (ch, f) = v.find?;
                let f = match (back, f) {
                    (false, f) => f,
                    (_, Find::F) => Find::BackF,
                    (_, Find::T) => Find::BackT,
                    (_, Find::BackF) => Find::F,
                    (_, Find::BackT) => Find::T,
                };
                Some((ch, f))
            }
            _ => None,
        };
        if let Some((ch, f)) = find {
            let hits: Vec<usize> = match f {
                Find::F | Find::T => (c + 1..n).filter(|i| x[*i] == ch).collect(),
                _ => (0..c).rev().filter(|i| x[*i] == ch).collect(),
            };
            let p = *hits.get(many - 1)?;
            return Some(match f {
                Find::F => (p, true),
                Find::T => (p - 1, true),
                Find::BackF => (p, false),
                Find::BackT => (p + 1, false),
            });
        }
        let mut i = c;
        match m {
            Mo::BackEnd(big) => {
                for _ in 0..many {
                    if n == 0 {
                        break;
                    }
                    if i < n && class(x[i], big) != 0 {
                        let k = class(x[i], big);
                        while i > 0 && class(x[i], big) == k {
                            i -= 1;
                        }
                    } else if i > 0 {
                        i -= 1;
                    }
                    while i > 0 && class(x[i], big) == 0 {
                        i -= 1;
                    }
                }
                Some((i, true))
            }
            Mo::Key(k) => Some(match k {
                Key::Char('h') | Key::Left | Key::Backspace => (c - many.min(c), false),
                Key::Char('l') | Key::Right | Key::Char(' ') => ((c + many).min(n), false),
                Key::Home | Key::Char('^') => (0, false),
                Key::End | Key::Char('$') => (n, false),
                Key::Char(w @ ('w' | 'W')) => {
                    let big = w == 'W';
                    for _ in 0..many {
                        if i >= n {
                            break;
                        }
                        let k = class(x[i], big);
                        while i < n && k != 0 && class(x[i], big) == k {
                            i += 1;
                        }
                        while i < n && class(x[i], big) == 0 {
                            i += 1;
                        }
                    }
                    (i, false)
                }
                Key::Char(w @ ('e' | 'E')) => {
                    let big = w == 'E';
                    for _ in 0..many {
                        if i >= n {
                            break;
                        }
                        i += 1;
                        while i < n && class(x[i], big) == 0 {
                            i += 1;
                        }
                        while i + 1 < n && class(x[i + 1], big) == class(x[i], big) {
                            i += 1;
                        }
                    }
                    (i, true)
                }
                Key::Char(w @ ('b' | 'B')) => {
                    let big = w == 'B';
                    for _ in 0..many {
                        if i == 0 {
                            break;
                        }
                        i -= 1;
                        while i > 0 && class(x[i], big) == 0 {
                            i -= 1;
                        }
                        while i > 0 && class(x[i], big) != 0 && class(x[i - 1], big) == class(x[i], big) {
                            i -= 1;
                        }
                    }
                    (i, false)
                }
                _ => unreachable!(),
            }),
            _ => unreachable!(),
        }
    }

    fn vi_enter_insert(&mut self, cmd: Vec<Key>, count: u32, repeat: u32) {
        let v = self.vi.as_mut().unwrap();
        v.ins = Some(Session { count: repeat, moved: false });
        v.dot = Some(Dot { cmd, typed: vec![], count, insert: true });
        self.line().open();
    }

    fn vi_command(&mut self, n: u32, c: Cmd, keys: Vec<Key>) {
        let cmd: Vec<Key> = {
            // without the counts
            let (_, i) = number(&keys);
            let mut k = keys[i..].to_vec();
            if let Cmd::Op(..) = c {
                let (_, j) = number(&k[1..]);
                k.drain(1..1 + j);
            }
            k
        };
        let len = self.text().len();
        let cur = self.cur;
        let many = n.max(1) as usize;
        let right = many.min(len - cur);
        macro_rules! dot {
            ($count:expr) => {
                self.vi.as_mut().unwrap().dot = Some(Dot { cmd, typed: vec![], count: $count, insert: false })
            };
        }
        match c {
            Cmd::Move(m) => match self.target(m, n) {
                Some((p, _)) => self.cur = p,
                None => self.vi.as_mut().unwrap().aborted = true,
            },
            Cmd::Op(change, m) => {
                if cur == 0 && matches!(m, Mo::BackEnd(_)) {
                    self.open = true;
                }
                let (p, incl) = match self.target(m, n) {
                    Some(x) => x,
                    None => {
                        self.vi.as_mut().unwrap().aborted = true;
                        return;
                    }
                };
                let (s, mut e) = (cur.min(p), cur.max(p));
                if incl {
                    e = (e + 1).min(len);
                }
                if change {
                    self.vi_enter_insert(cmd, n, 0);
                } else {
                    dot!(n);
                }
                self.remove(s, e);
            }
            Cmd::Whole(change) => {
                if change {
                    self.vi_enter_insert(cmd, 0, 0);
                } else {
                    dot!(0);
                }
                self.remove(0, len);
            }
            Cmd::Replace(ch) => {
                if many <= len - cur {
                    dot!(n);
                    self.edit(cur, cur + many, &vec![ch; many]);
                    self.cur = cur + many - 1;
                }
            }
            Cmd::Up => self.up(),
            Cmd::Down => self.down(),
            Cmd::Unbound => {
                if n > 0 {
                    self.open = true;
                }
            }
            Cmd::Simple(crate::drive::VI_REDO) => {
                let mut did = false;
                for _ in 0..many {
                    if !self.line().redo() {
                        break;
                    }
                    did = true;
                }
                if did {
                    self.cur = self.text().len();
                } else {
                    self.cursor_open = true;
                }
            }
            Cmd::Simple(Key::Ctrl('l')) => {
                if n > 0 {
                    self.open = true;
                }
                self.clear()
            }
            Cmd::Simple(Key::Char(k)) => match k {
                'x' => {
                    dot!(n);
                    self.remove(cur, cur + right);
                }
                'D' => {
                    dot!(0);
                    self.remove(cur, len);
                }
                'C' => {
                    self.vi_enter_insert(cmd, 0, 0);
                    self.remove(cur, len);
                }
                's' => {
                    self.vi_enter_insert(cmd, n, 0);
                    self.remove(cur, cur + right);
                }
                '~' => {
                    dot!(n);
                    let mut with = vec![];
                    let mut changed = false;
                    for ch in &self.text()[cur..cur + right] {
                        if ch.is_lowercase() {
                            with.extend(ch.to_uppercase());
                            changed = true;
                        } else if ch.is_uppercase() {
                            with.extend(ch.to_lowercase());
                            changed = true;
                        } else {
                            with.push(*ch);
                        }
                    }
                    if changed {
                        self.edit(cur, cur + right, &with);
                    }
                    self.cur = cur + with.len();
                }
                'i' | 'a' | 'I' | 'A' => {
                    self.cur = match k {
                        'a' => (cur + 1).min(len),
                        'A' => len,
                        'I' => 0,
                        _ => cur,
                    };
                    self.vi_enter_insert(cmd, 0, n);
                }
                'u' => {
                    let mut did = false;
                    for _ in 0..many {
                        if !self.line().undo() {
                            break;
                        }
                        did = true;
                    }
                    if did {
                        self.cur = self.text().len();
                    } else {
                        self.cursor_open = true;
                    }
                }
                '.' => self.dot(n),
                _ => unreachable!(),
            },
            Cmd::Simple(_) => unreachable!(),
        }
    }

    fn dot(&mut self, n: u32) {
        let v = self.vi.as_mut().unwrap();
        let d = match &v.dot {
            Some(d) => d.clone(),
            None => return,
        };
        let n = if n > 0 { n } else { d.count };
        v.aborted = false;
        v.dot.as_mut().unwrap().count = n;
        let mut keys: Vec<Key> = if n > 0 { n.to_string().chars().map(Key::Char).collect() } else { vec![] };
        keys.extend(d.cmd.iter().cloned());
        for k in keys {
            self.vi_key(k);
            self.clamp();
        }
        if self.vi.as_ref().unwrap().aborted {
            return;
        }
        if d.insert {
            for k in d.typed {
                self.vi_key(k);
            }
            self.vi_key(Key::Esc);
        }
    }
}
