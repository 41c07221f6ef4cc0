//! Drives the real editor key by key.
use crate::model::{self, Div};
use crate::props::api::{Api, When};
use crate::props::names::few_files;
use crate::props::own::Own;
use crate::term::{Term, Vt};
use liner::{Buffer, Completer, Context, Editor, Emacs, Key, KeyBindings, KeyMap, Prompt, Vi, ViPromptMode, ViStatus};
use std::io;
use std::path::PathBuf;

pub type Ctx = Context<Term>;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub name: String,
    pub keymap: KeyBindings,
    pub history: Vec<String>,
    pub prompt: String,
    /// Show a vi mode indicator in the prompt.
    pub status: bool,
    /// The mode the indicator is created with.
    pub status_normal: bool,
    /// Candidates are offered whatever the word is.
    pub unfiltered: bool,
    /// How words are divided.
    pub div: Div,
    pub init: String,
    pub width: usize,
    pub cands: Vec<String>,
    /// Colour the text with a closure.
    pub colour: bool,
    /// Keys pressed before the explored part.
    pub pre: Vec<Key>,
    /// What the event handler calls, and when.
    pub react: Option<(When, Api)>,
    /// The stored entries carry the changes they were made by.
    pub made: bool,
    /// The candidates are the names of files in a directory.
    pub files: bool,
    /// The key map is a program's own.
    pub own: bool,
}

impl Cfg {
    pub fn emacs(name: &str) -> Cfg {
        Cfg {
            name: name.into(),
            keymap: KeyBindings::Emacs,
            history: vec![],
            prompt: "$ ".into(),
            status: false,
            status_normal: false,
            unfiltered: false,
            div: Div::Usual,
            init: String::new(),
            width: 80,
            cands: vec![],
            colour: false,
            pre: vec![],
            react: None,
            made: false,
            files: false,
            own: false,
        }
    }
    pub fn vi(name: &str) -> Cfg {
        Cfg { keymap: KeyBindings::Vi, ..Cfg::emacs(name) }
    }
    pub fn hist<S: AsRef<str>>(mut self, h: &[S]) -> Cfg {
        self.history = h.iter().map(|s| s.as_ref().to_string()).collect();
        self
    }
    pub fn init(mut self, s: &str) -> Cfg {
        self.init = s.into();
        self
    }
    pub fn prompt(mut self, s: &str) -> Cfg {
        self.prompt = s.into();
        self
    }
    pub fn status(mut self) -> Cfg {
        self.status = true;
        self
    }
    pub fn width(mut self, w: usize) -> Cfg {
        self.width = w;
        self
    }
    pub fn cands(mut self, c: &[&str]) -> Cfg {
        self.cands = c.iter().map(|s| s.to_string()).collect();
        self
    }
    pub fn unfiltered(mut self) -> Cfg {
        self.unfiltered = true;
        self
    }
    pub fn div(mut self, d: Div) -> Cfg {
        self.div = d;
        self
    }
    pub fn made(mut self) -> Cfg {
        self.made = true;
        self
    }
    pub fn files(mut self) -> Cfg {
        self.files = true;
        self
    }
    pub fn colour(mut self) -> Cfg {
        self.colour = true;
        self
    }
    pub fn pre(mut self, k: &[Key]) -> Cfg {
        self.pre = k.to_vec();
        self
    }
    pub fn context(&self) -> Ctx {
        let mut c: Ctx = Context::with_terminal(Term::new(self.width));
        c.key_bindings = self.keymap;
        if self.div != Div::Usual {
            let d = self.div;
            c.word_divider_fn = Box::new(move |b: &Buffer| model::divide(d, &b.chars().cloned().collect::<Vec<char>>()));
        }
        for h in &self.history {
            let mut b = Buffer::from(h.as_str());
            if self.made {
                b = Buffer::from("zz");
                b.copy_buffer(&Buffer::from(h.as_str()));
                b.insert(0, &['q']);
                b.undo();
            }
            c.history.buffers.push_back(b);
        }
        c
    }
    pub fn make_prompt(&self) -> Prompt {
        Prompt {
            prompt: self.prompt.clone(),
            vi_status: if self.status { Some(ViStatus::new(
                    if self.status_normal { ViPromptMode::Normal } else { ViPromptMode::Insert },
                    "[N] ",
                    "[I] ",
                )) } else { None },
        }
    }
    pub fn closure(&self) -> Option<liner::ColorClosure> {
        if self.colour {
            Some(Box::new(closure))
        } else {
            None
        }
    }
    pub fn show(&self) -> String {
        let mut s = format!(
            "{:?} history={:?} prompt={:?}{} init={:?} width={}",
            self.keymap,
            self.history,
            self.prompt,
            if self.status { " (mode shown)" } else { "" },
            self.init,
            self.width
        );
        if self.own {
            s += " (a key map of the program's own)";
        }
        if self.files {
            s += " candidates=files";
        }
        if !self.cands.is_empty() {
            s += &format!(" candidates={:?}", self.cands);
        }
        if self.div != Div::Usual {
            s += &format!(" words={:?}", self.div);
        }
        if self.unfiltered {
            s += " (all of them offered always)";
        }
        if self.colour {
            s += " coloured";
        }
        if self.made {
            s += " (entries carry their changes)";
        }
        if let Some((w, a)) = self.react {
            s += &format!(" (the handler calls {} at {:?})", a.show(), w);
        }
        if !self.pre.is_empty() {
            s += &format!(" after {}", keys(&self.pre));
        }
        s
    }
}

/// Colours a line; how depends on the whole of it.
pub fn closure(s: &str) -> String {
    let n = s.chars().count();
    let first = s.chars().next().map_or(0, |c| c as usize);
    format!("\x1b[3{}m\x1b[4{}m{}\x1b[0m", 1 + n % 7, first % 8, s)
}

pub fn keys(k: &[Key]) -> String {
    k.iter().map(|k| format!("{:?}", k)).collect::<Vec<_>>().join(" ")
}

/// Offers fixed candidates beginning with the word asked about; records what it was asked and told.
#[derive(Default, Clone)]
pub struct Comp {
    pub cands: Vec<String>,
    pub filter: bool,
    pub files: Option<PathBuf>,
    pub asked: Vec<String>,
    pub events: Vec<String>,
    pub record: bool,
    pub react: Option<(When, Api)>,
}

impl Completer for Comp {
    fn completions(&mut self, start: &str) -> Vec<String> {
        if self.record {
            self.asked.push(start.to_string());
            self.events.push("asked".into());
        }
        if let Some(d) = &self.files {
            liner::FilenameCompleter::new(Some(d)).completions(start)
        } else if self.filter {
            liner::BasicCompleter::new(self.cands.clone()).completions(start)
        } else {
            self.cands.clone()
        }
    }
    fn on_event<C: liner::EditorContext>(&mut self, event: liner::Event<C>) {
        if self.record {
            self.events.push(format!("{:?}", event.kind));
        }
        if let Some((_, a)) = self.react.filter(|r| r.0.is(&event.kind)) {
            let _ = a.on(event.editor, None);
        }
    }
}

/// Ctrl-R handed to the vi key map alone, where it is redo.
pub const VI_REDO: Key = Key::F(49);

pub enum Km {
    Emacs(Emacs),
    Vi(Vi),
    Own(Own),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Out {
    Cont,
    Done,
    Fail(io::ErrorKind),
}

pub struct Sut<'a> {
    pub ed: Editor<&'a mut Ctx>,
    pub km: Km,
    pub comp: Comp,
    pub vt: Option<Vt>,
}

impl<'a> Sut<'a> {
    pub fn start(cfg: &Cfg, ctx: &'a mut Ctx, vt: Option<Vt>) -> Sut<'a> {
        let comp = Comp { cands: cfg.cands.clone(), filter: !cfg.unfiltered, files: if cfg.files { Some(few_files()) } else { None }, react: cfg.react, ..Default::default() };
        let mut ed = Editor::new_with_init_buffer(cfg.make_prompt(), cfg.closure(), ctx, cfg.init.as_str())
            .expect("creating the editor");
        let km = match cfg.keymap {
            _ if cfg.own => {
                let mut m = Own::default();
                m.init(&mut ed).expect("init");
                m.handed();
                Km::Own(m)
            }
            KeyBindings::Emacs => {
                let mut m = Emacs::new();
                m.init(&mut ed).expect("init");
                Km::Emacs(m)
            }
            KeyBindings::Vi => {
                let mut m = Vi::new();
                m.init(&mut ed).expect("init");
                Km::Vi(m)
            }
        };
        let mut s = Sut { ed, km, comp, vt };
        s.drain();
        for k in &cfg.pre {
            s.press(*k);
        }
        s
    }
    pub fn drain(&mut self) {
        let c = self.ed.context_mut();
        c.buffer.clear();
        if let Some(vt) = &mut self.vt {
            vt.feed(&c.terminal.out);
        }
        c.terminal.out.clear();
    }
    pub fn press(&mut self, k: Key) -> Out {
        let r = match &mut self.km {
            // past the keys all key maps have in common, among them Ctrl-R for a search
            Km::Vi(m) if k == VI_REDO => m.handle_key_core(Key::Ctrl('r'), &mut self.ed).map(|()| false),
            Km::Emacs(m) => m.handle_key(k, &mut self.ed, &mut self.comp),
            Km::Vi(m) => m.handle_key(k, &mut self.ed, &mut self.comp),
            Km::Own(m) => m.handle_key(k, &mut self.ed, &mut self.comp),
        };
        self.drain();
        match r {
            Ok(false) => Out::Cont,
            Ok(true) => Out::Done,
            Err(e) => Out::Fail(e.kind()),
        }
    }
    pub fn text(&self) -> String {
        self.ed.current_buffer().to_string()
    }
    pub fn cursor(&self) -> usize {
        self.ed.cursor()
    }
    pub fn loc(&self) -> Option<usize> {
        self.ed.current_history_location()
    }
    pub fn history(&self) -> Vec<String> {
        self.ed.context().history.buffers.iter().map(|b| b.to_string()).collect()
    }
}
