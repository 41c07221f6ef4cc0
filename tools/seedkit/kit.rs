//! A scripted terminal, and the editor driven key by key.
#![allow(dead_code)]
use liner::{Completer, Context, Editor, Emacs, EditorContext, Event, Key, KeyBindings, KeyMap, Prompt, Tty, Vi};
use std::collections::VecDeque;
use std::io::{self, Write};

#[derive(Default)]
pub struct T {
    pub keys: VecDeque<Key>,
    pub out: Vec<u8>,
    pub width: usize,
    /// Number of the operation that fails (0: none).
    pub fail_at: usize,
    pub ops: std::cell::Cell<usize>,
}

impl T {
    fn op(&self) -> io::Result<()> {
        self.ops.set(self.ops.get() + 1);
        if self.fail_at != 0 && self.ops.get() == self.fail_at {
            return Err(io::Error::new(io::ErrorKind::TimedOut, "terminal"));
        }
        Ok(())
    }
}

impl Tty for T {
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        if let Err(e) = self.op() {
            return Some(Err(e));
        }
        self.keys.pop_front().map(Ok)
    }
    fn width(&self) -> io::Result<usize> {
        self.op()?;
        Ok(self.width)
    }
}

impl Write for T {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.op()?;
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.op()
    }
}

pub type Ctx = Context<T>;

/// Characters stand for themselves; `^x` is Ctrl-X, `<M-x>` Alt-X, `<Esc>`, `<Up>`, `<CR>`, `<Tab>`, ... name keys.
pub fn keys(s: &str) -> Vec<Key> {
    let mut out = vec![];
    let mut c = s.chars();
    while let Some(x) = c.next() {
        match x {
            '^' => out.push(Key::Ctrl(c.next().unwrap())),
            '<' => {
                let name: String = c.by_ref().take_while(|x| *x != '>').collect();
                out.push(match &name[..] {
                    "Esc" => Key::Esc,
                    "CR" => Key::Char('\n'),
                    "Tab" => Key::Char('\t'),
                    "Up" => Key::Up,
                    "Down" => Key::Down,
                    "Left" => Key::Left,
                    "Right" => Key::Right,
                    "Home" => Key::Home,
                    "End" => Key::End,
                    "BS" => Key::Backspace,
                    "Del" => Key::Delete,
                    "M-lt" => Key::Alt('<'),
                    "M-gt" => Key::Alt('>'),
                    m if m.starts_with("M-") => Key::Alt(m.chars().last().unwrap()),
                    other => panic!("no key {}", other),
                });
            }
            x => out.push(Key::Char(x)),
        }
    }
    out
}

pub fn context(vi: bool, hist: &[&str], width: usize) -> Ctx {
    let mut c: Ctx = Context::with_terminal(T { width, ..T::default() });
    if vi {
        c.key_bindings = KeyBindings::Vi;
    }
    for h in hist {
        c.history.buffers.push_back((*h).into());
    }
    c
}

pub struct Comp(pub Vec<String>);
impl Completer for Comp {
    fn completions(&mut self, start: &str) -> Vec<String> {
        self.0.iter().filter(|s| s.starts_with(start)).cloned().collect()
    }
    fn on_event<C: EditorContext>(&mut self, _: Event<C>) {}
}

pub enum Km {
    E(Emacs),
    V(Vi),
}

/// The editor, fed one key after the other.
pub struct S<'a> {
    pub ed: Editor<&'a mut Ctx>,
    pub km: Km,
    pub comp: Comp,
}

impl<'a> S<'a> {
    pub fn with(ctx: &'a mut Ctx, prompt: Prompt, init: &str) -> S<'a> {
        let vi = ctx.key_bindings == KeyBindings::Vi;
        let mut ed = Editor::new_with_init_buffer(prompt, None, ctx, init).unwrap();
        let km = if vi {
            let mut m = Vi::new();
            m.init(&mut ed).unwrap();
            Km::V(m)
        } else {
            let mut m = Emacs::new();
            m.init(&mut ed).unwrap();
            Km::E(m)
        };
        S { ed, km, comp: Comp(vec![]) }
    }
    pub fn new(ctx: &'a mut Ctx, init: &str) -> S<'a> {
        S::with(ctx, Prompt::from("$ "), init)
    }
    pub fn press(&mut self, s: &str) -> io::Result<bool> {
        let mut r = false;
        for k in keys(s) {
            r = match &mut self.km {
                Km::E(m) => m.handle_key(k, &mut self.ed, &mut self.comp)?,
                Km::V(m) => m.handle_key(k, &mut self.ed, &mut self.comp)?,
            };
        }
        Ok(r)
    }
    pub fn at(&self) -> (String, usize) {
        (self.ed.current_buffer().to_string(), self.ed.cursor())
    }
    pub fn text(&self) -> String {
        self.at().0
    }
    pub fn shown(&mut self) -> String {
        let o = std::mem::take(&mut self.ed.context_mut().terminal.out);
        String::from_utf8(o).unwrap()
    }
}

/// The text and cursor after some keys.
pub fn after(vi: bool, hist: &[&str], init: &str, keys: &str) -> (String, usize) {
    let mut c = context(vi, hist, 80);
    let mut s = S::new(&mut c, init);
    s.press(keys).unwrap();
    s.at()
}

/// What reading a line with these keys returns.
pub fn read(ctx: &mut Ctx, init: &str, k: &str) -> io::Result<String> {
    ctx.terminal.keys = keys(k).into_iter().collect();
    ctx.read_line_with_init_buffer(Prompt::from("$ "), &mut Comp(vec![]), None, init)
}

pub fn scratch() -> std::path::PathBuf {
    std::path::PathBuf::from(std::env::var("SCRATCH").unwrap())
}

pub fn ok(what: &str, good: bool) {
    if !good {
        println!("FAILED: {}", what);
        std::process::exit(1);
    }
}

pub fn same<X: PartialEq + std::fmt::Debug>(what: &str, got: X, want: X) {
    if got != want {
        println!("FAILED: {}: {:?}, expected {:?}", what, got, want);
        std::process::exit(1);
    }
}
