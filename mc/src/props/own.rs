//! C30: key maps of a program's own, alone in lockstep with the reference model and driven by `handle_keys`.
use crate::drive::*;
use crate::engine::*;
use crate::lockstep::*;
use crate::model::{self, st, Model};
use crate::props::api::Api::{self, *};
use crate::props::keys::{alt, cat, ctrl, ks};
use crate::props::sweep::every_key;
use liner::{Completer, Editor, EditorContext, Event, Key, KeyMap};
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

type Log = Rc<RefCell<Vec<String>>>;

/// Fails after calling nothing, or something.
const FAILS: [(char, io::ErrorKind); 4] = [
    ('!', io::ErrorKind::Interrupted),
    ('?', io::ErrorKind::UnexpectedEof),
    (';', io::ErrorKind::WouldBlock),
    ('%', io::ErrorKind::NotFound),
];
const MSG: &str = "the key map's own";

/// What the program's key map calls for a key; `n` is the state it keeps.
fn binding(k: Key, n: &mut usize) -> (Vec<Api>, Option<io::ErrorKind>) {
    let calls = match k {
        Key::Char('c') => {
            *n += 1;
            vec![Char(char::from(b'0' + (*n % 10) as u8))]
        }
        Key::Char('2') => vec![Left(1), Char('x')],
        Key::Char('d') => vec![DelAllBefore],
        Key::Char('u') => vec![Undo],
        Key::Char('U') => vec![Redo],
        Key::Char('R') => vec![Revert],
        Key::Char('w') => vec![DelWord(true)],
        Key::Char('<') => vec![Oldest],
        Key::Char('>') => vec![New],
        Key::Char('=') => vec![Buffer(0, 1, "ab")],
        Key::Char('%') => vec![Char('z')],
        Key::Char(c) if c.is_ascii_punctuation() && c != '\\' => vec![],
        Key::Char(c) => vec![Char(c)],
        Key::Backspace => vec![DelBefore],
        Key::Ctrl('d') | Key::Delete => vec![DelAfter],
        Key::Left => vec![Left(1)],
        Key::Right | Key::Ctrl('f') => vec![Right(1)],
        Key::Up => vec![Up],
        Key::Down => vec![Down],
        Key::Home => vec![Start],
        Key::End => vec![End],
        Key::Alt('a') => vec![Str("b c"), Accept],
        Key::Ctrl('l') => vec![Clear],
        _ => vec![],
    };
    let fail = FAILS.iter().find(|f| k == Key::Char(f.0)).map(|f| f.1);
    (calls, fail)
}

/// A program's key map.
#[derive(Default, Clone)]
pub struct Own {
    n: usize,
    start: Vec<Api>,
    start_fails: bool,
    log: Log,
}

impl KeyMap for Own {
    fn init<C: EditorContext>(&mut self, ed: &mut Editor<C>) -> io::Result<()> {
        self.log.borrow_mut().push("init".into());
        for a in &self.start {
            a.on(ed, None)?;
        }
        if self.start_fails {
            return Err(io::Error::new(io::ErrorKind::NotFound, MSG));
        }
        Ok(())
    }
    fn handle_key_core<C: EditorContext>(&mut self, key: Key, ed: &mut Editor<C>) -> io::Result<()> {
        self.log.borrow_mut().push(format!("key {:?}", key));
        let (calls, fail) = binding(key, &mut self.n);
        for a in calls {
            a.on(ed, None)?;
        }
        fail.map_or(Ok(()), |k| Err(io::Error::new(k, MSG)))
    }
}

impl Own {
    /// The keys it was handed since asked last.
    pub fn handed(&self) -> Vec<String> {
        std::mem::take(&mut *self.log.borrow_mut())
    }
}

/// A program's key map that also decides when the line ends.
#[derive(Default)]
struct All(Own);

impl KeyMap for All {
    fn init<C: EditorContext>(&mut self, ed: &mut Editor<C>) -> io::Result<()> {
        self.0.init(ed)
    }
    fn handle_key_core<C: EditorContext>(&mut self, key: Key, ed: &mut Editor<C>) -> io::Result<()> {
        self.0.handle_key_core(key, ed)
    }
    fn handle_key<C: EditorContext, H: Completer>(&mut self, key: Key, ed: &mut Editor<C>, _: &mut H) -> io::Result<bool> {
        match key {
            Key::Char('q') => return Ok(true),
            Key::Char('\n') => return ed.handle_newline(),
            _ => {}
        }
        self.handle_key_core(key, ed)?;
        Ok(false)
    }
}

/// The key map in the reference model.
pub fn model(m: &mut Model, k: Key) -> model::Out {
    let mut n = m.own.expect("a program's key map");
    m.handed.push(format!("key {:?}", k));
    let (calls, fail) = binding(k, &mut n);
    m.own = Some(n);
    let mut cleared = false;
    for a in calls {
        a.model(m);
        cleared |= m.cleared;
    }
    m.cleared = cleared;
    fail.map_or(model::Out::Cont, model::Out::Failed)
}

/// Completer and event handler writing to the log the key map writes to.
struct Ear {
    comp: Comp,
    log: Log,
}

impl Completer for Ear {
    fn completions(&mut self, start: &str) -> Vec<String> {
        self.log.borrow_mut().push(format!("asked {:?}", start));
        self.comp.completions(start)
    }
    fn on_event<C: EditorContext>(&mut self, event: Event<C>) {
        self.log.borrow_mut().push(format!("{:?}", event.kind));
    }
}

/// Whole lines read by `handle_keys`.
struct Whole {
    name: &'static str,
    cfgs: Vec<(Cfg, Vec<Api>, bool)>,
    toks: Vec<Tok>,
    depth: usize,
    /// The key map overrides `handle_key`.
    all: bool,
}

impl Space for Whole {
    fn name(&self) -> String {
        self.name.into()
    }
    fn configs(&self) -> usize {
        self.cfgs.len()
    }
    fn tokens(&self, _: usize) -> usize {
        self.toks.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let (cfg, init, fails) = &self.cfgs[c];
        let k: Vec<Key> = seq.iter().flat_map(|t| self.toks[*t as usize].0.iter().cloned()).collect();
        format!("{} | init calls {:?}{} | keys: {}", cfg.show(), init, if *fails { " and fails" } else { "" }, keys(&k))
    }
    fn run(&self, c: usize, seq: &[u16], st_: &mut Stats) -> RunResult {
        let (cfg, init, fails) = &self.cfgs[c];
        // what is expected
        let mut m = Model::new(false, &cfg.history, &cfg.init, &cfg.cands);
        m.own = Some(0);
        m.unfiltered = cfg.unfiltered;
        let mut log = vec!["init".to_string()];
        for a in init {
            a.model(&mut m);
        }
        let all: Vec<Key> = seq.iter().flat_map(|t| self.toks[*t as usize].0.iter().cloned()).collect();
        let mut used = 0;
        // the end of the terminal's keys ends the line too
        let mut out = if *fails { model::Out::Failed(io::ErrorKind::NotFound) } else { model::Out::Cont };
        let mut tok = 0;
        for (i, k) in all.iter().enumerate() {
            if out != model::Out::Cont {
                break;
            }
            used = i + 1;
            tok = i + 1;
            if self.all {
                out = match k {
                    Key::Char('q') => model::Out::Done,
                    Key::Char('\n') => m.enter(),
                    k => model(&mut m, *k),
                };
                log.append(&mut m.handed);
            } else {
                log.push(format!("BeforeKey({:?})", k));
                let asked = m.asked.len();
                out = m.key(*k);
                log.append(&mut m.handed);
                if *k == Key::Char('\t') {
                    log.push("BeforeComplete".into());
                    log.extend(m.asked[asked..].iter().map(|a| format!("asked {:?}", a)));
                }
                if matches!(out, model::Out::Cont | model::Out::Done) {
                    log.push(format!("AfterKey({:?})", k));
                }
            }
            if m.open {
                st_.outcome("left open");
                return Ok(seq.len());
            }
        }
        let want = match out {
            model::Out::Cont | model::Out::Done => Ok(st(m.text())),
            model::Out::Interrupted => Err(io::ErrorKind::Interrupted),
            model::Out::Eof => Err(io::ErrorKind::UnexpectedEof),
            model::Out::Failed(k) => Err(k),
        };
        let own_error = matches!(out, model::Out::Failed(_));
        // what happens
        let heard = Log::default();
        let own = Own { n: 0, start: init.clone(), start_fails: *fails, log: heard.clone() };
        let mut ear = Ear { comp: Comp { cands: cfg.cands.clone(), filter: !cfg.unfiltered, ..Default::default() }, log: heard.clone() };
        let mut ctx = cfg.context();
        ctx.terminal.keys = all.iter().cloned().collect();
        let ed = Editor::new_with_init_buffer(cfg.make_prompt(), cfg.closure(), &mut ctx, &cfg.init[..]).map_err(|e| e.to_string())?;
        let r = if self.all {
            EditorContext::handle_keys(All(own), ed, &mut ear)
        } else {
            EditorContext::handle_keys(own, ed, &mut ear)
        };
        st_.steps += used as u64;
        let said = r.as_ref().err().map(|e| e.to_string());
        let got = r.map_err(|e| e.kind());
        let names = |v: &[String]| v.iter().map(|e| e.replace("(Ctrl('h'))", "(Backspace)")).collect::<Vec<_>>();
        st_.note(|| format!("{:?}, expected {:?}; heard {:?}", got, want, heard.borrow()));
        if got != want {
            return Err(format!("the read gives {:?}, expected {:?}", got, want));
        }
        if own_error && said.as_deref() != Some(MSG) {
            return Err(format!("the read fails with {:?}, the key map with {:?}", said, MSG));
        }
        if names(&heard.borrow()) != names(&log) {
            return Err(format!("key map and event handler heard {:?}, expected {:?}", heard.borrow(), log));
        }
        if ctx.terminal.keys.len() != all.len() - used {
            return Err(format!("{} keys are left, expected {}", ctx.terminal.keys.len(), all.len() - used));
        }
        let h: Vec<String> = ctx.history.buffers.iter().map(|b| b.to_string()).collect();
        if h != cfg.history {
            return Err(format!("the history became {:?}", h));
        }
        st_.compared += 1;
        st_.state(&(c, &want.ok(), tok, m.cur, m.loc));
        st_.outcome(match out {
            model::Out::Cont => "end of input",
            model::Out::Done => "line entered",
            _ => "given up",
        });
        // nothing is read past the end
        let mut n = 0;
        for (i, t) in seq.iter().enumerate() {
            n += self.toks[*t as usize].0.len();
            if out != model::Out::Cont && n >= used {
                return Ok(i + 1);
            }
        }
        Ok(seq.len())
    }
}

pub fn c30(ex: &mut Explorer) {
    ex.rule = "all sequences of keys given to a key map of the program's own, compared key by key with the reference model, and read as whole \
               lines through handle_keys; cases are distinct by configuration, line, cursor, history entry and outcome"
        .into();
    let own = |n: &str| Cfg { own: true, ..Cfg::emacs(n) };
    let h = ["ab c", "xab", "b"];
    let cfgs = vec![
        own("empty").hist(&h).cands(&["ab", "ac"]),
        own("text").hist(&["ab c", "a b cd"]).init("a b").pre(&[Key::Left]),
        own("recalled").hist(&["a é b", "x"]).pre(&[Key::Up, Key::Up, Key::Left]).colour(),
        own("narrow").init("世a").width(6).cands(&["abc", "abd"]),
    ];
    let on = STATE | SCREEN | HIST | RESULT | EVENTS | ASKED | HANDED;
    let k = cat(&[ks("abc2du=<%;\\"), vec![Key::Left, Key::Right, Key::Up, Key::Down, Key::Backspace, Key::Char('\t'), Key::Char('\n')], ctrl("cdfhrsl"), alt("a")]);
    ex.explore(&Lock::new("key by key", cfgs.clone(), k, ex.pick(4, 5), on));
    let k = cat(&[ks("adu\\"), vec![Key::Left, Key::Right, Key::Up, Key::Backspace, Key::Char('\t'), Key::Char('\n')], ctrl("cdfr")]);
    ex.explore(&Lock::new("key by key, few keys", cfgs.clone(), k, ex.pick(5, 6), on));
    // whole lines
    let mut v = vec![];
    for c in cfgs.iter().map(|c| Cfg { pre: vec![], ..c.clone() }) {
        for init in [vec![], vec![Str("b c"), Left(1)], vec![Up]] {
            v.push((c.clone(), init, false));
        }
    }
    v.push((cfgs[0].clone(), vec![Char('a')], true));
    let k = cat(&[ks("acq2U!?;%\\"), vec![Key::Left, Key::Up, Key::Backspace, Key::Char('\t'), Key::Char('\n'), Key::Right], ctrl("cdfhrs")]);
    ex.explore(&Whole { name: "whole lines", cfgs: v.clone(), toks: k.clone(), depth: ex.pick(4, 5), all: false });
    ex.explore(&Whole { name: "whole lines, all keys its own", cfgs: v.clone(), toks: k, depth: ex.pick(4, 5), all: true });
    // every key
    let all = cat(&[every_key(), crate::props::sweep::letters(true).into_iter().filter(|c| !c.is_ascii()).map(Key::Char).collect()]);
    ex.explore(&Whole { name: "every key", cfgs: v, toks: all.clone(), depth: 2, all: false });
    ex.explore(&Lock::new("every key, key by key", cfgs, all, 2, on));
}
