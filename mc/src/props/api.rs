//! C25: the editor's operations called by a program, in lockstep with the reference model.
use crate::drive::*;
use crate::engine::*;
use crate::lockstep::*;
use crate::model::{self, Model};
use crate::props::keys::{alt, cat, ctrl};
use liner::{Editor, EditorContext, EventKind, Key};
use std::io;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum When {
    BeforeKey,
    BeforeComplete,
    AfterKey,
}

impl When {
    pub fn is(self, k: &EventKind) -> bool {
        match k {
            EventKind::BeforeKey(_) => self == When::BeforeKey,
            EventKind::BeforeComplete => self == When::BeforeComplete,
            EventKind::AfterKey(_) => self == When::AfterKey,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Api {
    Str(&'static str),
    Chars(&'static [char]),
    Char(char),
    DelBefore,
    DelAfter,
    DelAllBefore,
    DelAllAfter,
    Until(usize),
    UntilIncl(usize),
    DelWord(bool),
    Left(usize),
    Right(usize),
    To(usize),
    Start,
    End,
    Undo,
    Redo,
    Revert,
    Up,
    Down,
    Oldest,
    New,
    Search(bool),
    Accept,
    Clear,
    Complete,
    Newline,
    Show,
    /// Changes the text through `current_buffer_mut`, then shows it.
    Buffer(usize, usize, &'static str),
    AtEnd,
    /// What a program calls between lines: no entry holds changes.
    RevertAll,
}
use Api::*;

pub const API: &[Api] = &[
    Str("aé b"), Str(""), Chars(&['b', 'a']), Char('a'), Char('世'), DelBefore, DelAfter, DelAllBefore, DelAllAfter, Until(0), Until(1), Until(3), Until(99),
    UntilIncl(0), UntilIncl(1), UntilIncl(3), UntilIncl(99), DelWord(true), DelWord(false), Left(0), Left(1), Left(2), Left(99), Right(0), Right(1), Right(3),
    Right(99), To(0), To(1), To(2), To(99), Start, End, Undo, Redo, Revert, Up, Down, Oldest, New, Search(true), Search(false), Accept, Clear,
    Complete, Newline, Show, Buffer(0, 1, "ab"), Buffer(0, 99, "x"), AtEnd, Left(usize::MAX), Right(usize::MAX), To(usize::MAX),
    Until(usize::MAX), Str("a"), Str("bc"), UntilIncl(usize::MAX), Char('\n'), Str("a\n b"), Char('\\'),
    Left(7), To(50), To(200), Until(60), UntilIncl(60), Until(10), UntilIncl(10), RevertAll,
];

/// Keys no key map binds stand for the calls.
pub fn of(k: Key) -> Option<&'static Api> {
    match k {
        Key::F(n) if n >= 50 => Some(&API[n as usize - 50]),
        _ => None,
    }
}

/// A call that may end the line.
pub fn ends(k: Key) -> bool {
    matches!(of(k), Some(Newline))
}

fn key(a: &Api) -> Key {
    let i = API.iter().position(|b| b.show() == a.show()).unwrap();
    Key::F(i as u8 + 50)
}

pub fn calls(v: &[Api]) -> Vec<Key> {
    v.iter().map(key).collect()
}

pub fn names(k: &[Key]) -> String {
    k.iter().map(|k| of(*k).map_or_else(|| format!("{:?}", k), |a| a.show())).collect::<Vec<_>>().join(" ")
}

impl Api {
    pub fn show(&self) -> String {
        format!("<{:?}>", self)
    }

    /// `comp` is asked for candidates.
    pub fn on<C: EditorContext>(&self, e: &mut Editor<C>, comp: Option<&mut Comp>) -> io::Result<Option<bool>> {
        // as a key map does before it handles another key
        if !matches!(self, Complete | Newline | AtEnd) {
            e.skip_completions_hint();
        }
        let unit = |r: io::Result<()>| r.map(|_| None);
        match *self {
            Str(x) => unit(e.insert_str_after_cursor(x)),
            Chars(x) => unit(e.insert_chars_after_cursor(x)),
            Char(c) => unit(e.insert_after_cursor(c)),
            DelBefore => unit(e.delete_before_cursor()),
            DelAfter => unit(e.delete_after_cursor()),
            DelAllBefore => unit(e.delete_all_before_cursor()),
            DelAllAfter => unit(e.delete_all_after_cursor()),
            Until(n) => unit(e.delete_until(n)),
            UntilIncl(n) => unit(e.delete_until_inclusive(n)),
            DelWord(b) => unit(e.delete_word_before_cursor(b)),
            Left(n) => unit(e.move_cursor_left(n)),
            Right(n) => unit(e.move_cursor_right(n)),
            To(n) => unit(e.move_cursor_to(n)),
            Start => unit(e.move_cursor_to_start_of_line()),
            End => unit(e.move_cursor_to_end_of_line()),
            Undo => e.undo().map(Some),
            Redo => e.redo().map(Some),
            Revert => e.revert().map(Some),
            Up => unit(e.move_up()),
            Down => unit(e.move_down()),
            Oldest => unit(e.move_to_start_of_history()),
            New => unit(e.move_to_end_of_history()),
            Search(f) => unit(e.search(f)),
            Accept => unit(e.accept_autosuggestion()),
            Clear => unit(e.clear()),
            Complete => unit(e.complete(comp.expect("a completer"))),
            Newline => e.handle_newline().map(Some),
            Show => unit(e.display()),
            Buffer(from, to, with) => {
                let b = e.current_buffer_mut();
                let n = b.num_chars();
                b.start_undo_group();
                b.remove(from.min(n), to.min(n));
                b.insert(from.min(n), &model::t(with));
                b.end_undo_group();
                unit(e.display())
            }
            RevertAll => {
                e.context_mut().revert_all_history();
                unit(e.display())
            }
            AtEnd => Ok(Some(e.cursor_is_at_end_of_line())),
        }
    }

    pub fn run(&self, s: &mut Sut) -> (Out, Option<bool>) {
        let r = self.on(&mut s.ed, Some(&mut s.comp));
        s.drain();
        match r {
            Ok(Some(true)) if matches!(self, Newline) => (Out::Done, Some(true)),
            Ok(x) => (Out::Cont, x),
            Err(e) => (Out::Fail(e.kind()), None),
        }
    }

    pub fn model(&self, m: &mut Model) -> (model::Out, Option<bool>) {
        m.cursor_open = false;
        m.cleared = false;
        if m.pending() {
            m.open = true; // in the middle of a command
        }
        if !matches!(self, Complete | Newline | AtEnd) {
            m.list = None;
        }
        let before = m.new.text.clone();
        let n = m.text().len();
        let c = m.cur;
        let mut told = None;
        let mut out = model::Out::Cont;
        match *self {
            Str(x) => insert(m, &model::t(x)),
            Chars(x) => insert(m, x),
            Char(x) => insert(m, &[x]),
            DelBefore => m.remove(c.saturating_sub(1), c),
            DelAfter => m.remove(c, (c + 1).min(n)),
            DelAllBefore => m.remove(0, c),
            DelAllAfter => m.remove(c, n),
            Until(p) => m.remove(c.min(p), c.max(p).min(n)),
            UntilIncl(p) => {
                // the character at the position, or at the cursor, is the last one
                let (s, e) = if p < c { (p, c + 1) } else { (c, p.saturating_add(1)) };
                m.remove(s.min(n), e.min(n))
            }
            DelWord(skip) => {
                if skip || (c > 0 && (m.text()[c - 1] != ' ' || (c > 1 && m.text()[c - 2] == '\\'))) {
                    m.emacs_key(Key::Ctrl('w'))
                }
            }
            Left(k) => m.cur = c.saturating_sub(k),
            Right(k) => m.cur = c.saturating_add(k).min(n),
            To(p) => m.cur = p.min(n),
            Start => m.cur = 0,
            End => m.cur = n,
            Undo | Redo | Revert => {
                let did = match self {
                    Undo => m.line().undo(),
                    Redo => m.line().redo(),
                    _ => {
                        let mut did = false;
                        while m.line().undo() {
                            did = true;
                        }
                        did
                    }
                };
                if did {
                    m.cur = m.text().len();
                }
                told = Some(did);
            }
            Up => m.up(),
            Down => m.down(),
            Oldest => m.emacs_key(Key::Alt('<')),
            New => m.emacs_key(Key::Alt('>')),
            Search(f) => m.search_key(f),
            Accept => m.accept(),
            Clear => m.clear(),
            Complete => m.tab(),
            Newline => {
                out = m.enter();
                told = Some(out == model::Out::Done);
            }
            Show | RevertAll => {}
            Buffer(from, to, with) => {
                m.edit(from.min(n), to.min(n), &model::t(with));
            }
            AtEnd => told = Some(m.at_end()),
        }
        m.refine(&before);
        m.clamp();
        (out, told)
    }
}

fn insert(m: &mut Model, x: &[char]) {
    if !x.is_empty() {
        m.insert(x)
    }
}

pub fn c25(ex: &mut Explorer) {
    let on = STATE | SCREEN | HIST | RESULT;
    let e = Cfg::emacs;
    let cfgs = vec![
        e("empty").hist(&["ab c", "xab", "b"]).cands(&["ab", "a\\ c"]),
        e("text").hist(&["ab c", "a b cd"]).init("a b\\ c").pre(&[Key::Left, Key::Left]),
        e("recalled").hist(&["a é b", "x"]).pre(&[Key::Up, Key::Up, Key::Left]),
        e("no history").init("世a"),
    ];
    let d = ex.pick(3, 4);
    ex.explore(&Lock::new("every call", cfgs.clone(), cat(&[calls(API)]), d, on));
    let some = calls(&[
        Str("aé b"), Char('a'), DelBefore, DelAllAfter, Until(1), UntilIncl(1), DelWord(false), Left(1), Right(1), To(1), Undo, Redo, Revert, Up, Down, Oldest,
        New, Search(false), Accept, Complete, Newline, Buffer(0, 1, "ab"),
    ]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("most calls", cfgs.clone(), cat(&[some]), d, on));
    // the calls of an event handler between keys
    let k = [
        calls(&[Str("a"), DelAllBefore, Until(1), Undo, Redo, To(1), Up, Accept, Complete, Buffer(0, 99, "x"), New]),
        vec![Key::Char('b'), Key::Backspace, Key::Left, Key::Up, Key::Down, Key::Char('\t'), Key::Char('\n'), Key::Right],
        ctrl("xrf"),
        alt("<r"),
    ];
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("calls and keys", cfgs.clone(), cat(&k), d, on));
    let k = [
        calls(&[Str("a"), DelAllBefore, Until(1), To(1), To(99), Right(1), Up, Accept, Buffer(0, 99, "x"), New, AtEnd]),
        crate::props::keys::ks("bx\x1bu.iAcdw0"),
        vec![Key::Up, Key::Char('\n'), Key::Right],
    ];
    let cfgs = ["", "a b cd"].iter().flat_map(|i| [&[][..], &[Key::Esc][..]].map(|p| Cfg::vi("vi").hist(&["ab c", "xab", "b"]).init(i).pre(p))).collect();
    ex.explore(&Lock::new("calls and keys, vi", cfgs, cat(&k), ex.pick(4, 5), on));
    // undoing and redoing
    let few = calls(&[Char('a'), Str("bc"), DelBefore, DelAllBefore, Undo, Redo, Revert, Up, New, Until(1)]);
    let d = ex.pick(6, 7);
    ex.explore(&Lock::new("undo and redo", vec![e("empty").hist(&["ab"]), e("made").hist(&["ab"]).made()], cat(&[few]), d, TEXT | CURSOR | OUT | HIST));
    // called by the event handler itself
    let ops = [Char('a'), Str("b c"), DelBefore, DelAllBefore, Until(1), Left(1), To(0), To(99), End, Undo, Redo, Up, New, Accept, Clear, Buffer(0, 1, "ab"), Search(false), Show];
    let mut v = vec![];
    for a in ops {
        for w in [When::BeforeKey, When::BeforeComplete, When::AfterKey] {
            for c in [e("handler"), Cfg::vi("handler"), Cfg::vi("handler").pre(&[Key::Esc])] {
                if c.keymap == liner::KeyBindings::Vi && matches!(a, Undo | Redo) {
                    continue; // within an insertion
                }
                let mut c = c.hist(&["ab c", "xab", "b"]).cands(&["ab", "b", "bc"]).init("a b");
                c.react = Some((w, a));
                v.push(c);
            }
        }
    }
    let k = [vec![Key::Char('b'), Key::Char('x'), Key::Char('u'), Key::Char('i'), Key::Backspace, Key::Left, Key::Up, Key::Down, Key::Char('\t'), Key::Char('\n'), Key::Right, Key::Esc, Key::Char(' ')], ctrl("rfd")];
    ex.explore(&Lock::new("by the event handler", v, cat(&k), ex.pick(3, 4), on));
}
