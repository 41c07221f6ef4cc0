//! Runs the real editor and the reference model side by side, key by key.
use crate::drive::{self, keys, Cfg, Sut};
use crate::engine::*;
use crate::model::{self, st, Model};
use crate::props::api::{self, When};
use crate::screen::*;
use liner::{Key, KeyBindings, Prompt, ViPromptMode, ViStatus};

pub const TEXT: u32 = 1;
pub const CURSOR: u32 = 2;
pub const LOC: u32 = 4;
pub const OUT: u32 = 8;
pub const OFFER: u32 = 16;
pub const SCREEN: u32 = 32;
pub const STATUS: u32 = 64;
pub const HIST: u32 = 128;
pub const ASKED: u32 = 256;
/// The text shown right after moving between the new line and history entries.
pub const RECALL: u32 = 512;
/// What the read returns.
pub const RESULT: u32 = 1024;
/// The events announced.
pub const EVENTS: u32 = 2048;
/// When a completion is announced.
pub const NOTICE: u32 = 1 << 20;
/// The colours on the screen.
pub const COLOURS: u32 = 4096;
/// The keys handed to a program's own key map.
pub const HANDED: u32 = 8192;
pub const STATE: u32 = TEXT | CURSOR | LOC | OUT | OFFER;

/// One token: keys pressed one after the other.
#[derive(Clone, Debug)]
pub struct Tok(pub Vec<Key>);

pub fn singles(k: &[Key]) -> Vec<Tok> {
    k.iter().map(|k| Tok(vec![*k])).collect()
}

/// Tokens written as text: characters stand for themselves, `^[` is Esc.
pub fn toks(v: &[&str]) -> Vec<Tok> {
    v.iter()
        .map(|s| Tok(s.chars().map(|c| if c == '\x1b' { Key::Esc } else { Key::Char(c) }).collect()))
        .collect()
}

pub struct Lock {
    pub name: String,
    pub cfgs: Vec<Cfg>,
    pub toks: Vec<Tok>,
    /// Tokens of the start configurations, if they differ.
    pub own: Vec<Vec<Tok>>,
    pub depth: usize,
    /// What has to agree for this property.
    pub on: u32,
    /// Screen before the line is read.
    pub before: String,
}

impl Lock {
    pub fn new(name: &str, cfgs: Vec<Cfg>, toks: Vec<Tok>, depth: usize, on: u32) -> Lock {
        Lock { name: name.into(), cfgs, toks, own: vec![], depth, on, before: String::new() }
    }

    /// Every start configuration with tokens of its own.
    pub fn each(name: &str, v: Vec<(Cfg, Vec<Tok>)>, depth: usize, on: u32) -> Lock {
        let (cfgs, own) = v.into_iter().unzip();
        Lock { own, ..Lock::new(name, cfgs, vec![], depth, on) }
    }

    fn tok(&self, c: usize, t: u16) -> &Tok {
        &self.own.get(c).unwrap_or(&self.toks)[t as usize]
    }
}

/// Keys no key map binds stand for replacing the prompt.
fn new_prompt(k: Key) -> Option<(&'static str, Option<(&'static str, &'static str)>, ViPromptMode)> {
    match k {
        Key::F(12) => Some(("1> ", Some(("N:", "I:")), ViPromptMode::Insert)),
        Key::F(11) => Some((">", Some(("<n>", "<i>")), ViPromptMode::Normal)),
        Key::F(10) => Some(("% ", None, ViPromptMode::Insert)),
        _ => None,
    }
}

struct Run<'a, 'b> {
    cfg: &'a Cfg,
    s: Sut<'b>,
    m: Model,
    on: u32,
    scr: Option<Screen>,
    hist: Vec<String>,
    /// The indicators in the prompt, of normal and insert mode.
    status: Option<(&'static str, &'static str)>,
}

enum Step {
    Go,
    End(&'static str),
}

impl<'a, 'b> Run<'a, 'b> {
    fn err(&self, k: &str, what: &str, got: String, want: String) -> String {
        format!("after {}: {} is {}, expected {}", k, what, got, want)
    }

    fn screen(&mut self, done: bool) -> Result<(), String> {
        let scr = match &self.scr {
            Some(s) => s,
            None => return Ok(()),
        };
        let m = &self.m;
        let vt = self.s.vt.as_ref().unwrap();
        let search = if done { None } else { m.search.as_ref() };
        let offered = if done { None } else { m.offered() };
        let status = |normal: bool| self.status.map_or("", |s| if normal { s.0 } else { s.1 });
        let mut sh = Shown {
            status: status(m.normal()),
            search: search.map(|s| (if s.matches.is_empty() { 0 } else { s.pos + 1 }, s.matches.len())),
            text: m.text(),
            cursor: m.cur,
            offered: offered.map(|o| &o[..]),
            list: m.list.as_ref().map(|l| &l.0[..]),
            selected: m.list.as_ref().and_then(|l| l.1.map(|x| x.0)),
            done,
        };
        if self.on & COLOURS != 0 {
            if scr.check(vt, &sh).is_err() {
                return Ok(()); // another property's
            }
            let f: Option<&dyn Fn(&str) -> String> = if self.cfg.colour { Some(&drive::closure) } else { None };
            return scr.colours(vt, &sh, f);
        }
        let r = scr.check(vt, &sh);
        if r.is_err() && self.status.is_some() && (self.on & STATUS == 0 || m.pending()) {
            // the mode shown is another property's, and open while a command is being typed
            sh.status = status(!m.normal());
            if scr.check(vt, &sh).is_ok() {
                return Ok(());
            }
        }
        r
    }

    /// A key, and what the event handler calls.
    fn key(&mut self, k: Key) -> model::Out {
        let m = &mut self.m;
        let (w, a) = match &self.cfg.react {
            None => return m.key(k),
            Some(r) => r,
        };
        if m.pending() {
            m.open = true; // what the command does then is left open
            return model::Out::Cont;
        }
        if *w == When::BeforeKey || (*w == When::BeforeComplete && k == Key::Char('\t')) {
            a.model(m);
        }
        let out = m.key(k);
        if *w == When::AfterKey {
            if out != model::Out::Cont || m.pending() || m.cursor_open {
                m.open = true;
                return out;
            }
            let cleared = m.cleared;
            a.model(m);
            m.cleared |= cleared;
        }
        out
    }

    fn press(&mut self, k: Key, st_: &mut Stats) -> Result<Step, String> {
        if let (Some((prompt, ind, mode)), Some(scr)) = (new_prompt(k), &mut self.scr) {
            // as a program does it, from its event handler for one
            let p = Prompt { prompt: prompt.into(), vi_status: ind.map(|(n, i)| ViStatus::new(mode, n, i)) };
            self.s.ed.set_prompt(p);
            if self.s.ed.display().is_err() {
                return Err("display failed".into());
            }
            self.s.drain();
            self.status = ind;
            scr.replace_prompt(prompt);
            st_.steps += 1;
            return match self.screen(false) {
                Ok(()) => Ok(Step::Go),
                Err(e) => Err(format!("after set_prompt({:?}, {:?}): {}", prompt, ind, e)),
            };
        }
        let (s0, m0) = (self.s.loc(), self.m.loc);
        let call = api::of(k);
        let (o, w) = match call {
            Some(a) => {
                let (o, told) = a.run(&mut self.s);
                let (w, want) = a.model(&mut self.m);
                if !self.m.open && told != want {
                    return Err(format!("{} says {:?}, expected {:?}", a.show(), told, want));
                }
                (o, w)
            }
            None => (self.s.press(k), self.key(k)),
        };
        let label = call.map_or_else(|| format!("{:?}", k), |a| a.show());
        st_.steps += 1;
        let text = self.s.text();
        if self.m.open {
            return Ok(Step::End("left open"));
        }
        st_.note(|| {
            format!(
                "{} -> {:?} text={:?} cursor={} entry={:?} | expected {:?} text={:?} cursor={} entry={:?} offered={:?}",
                label,
                o,
                text,
                self.s.cursor(),
                self.s.loc(),
                w,
                st(self.m.text()),
                self.m.cur,
                self.m.loc,
                self.m.offered().map(|t| st(t)),
            )
        });
        let want_out = match w {
            model::Out::Cont => drive::Out::Cont,
            model::Out::Done => drive::Out::Done,
            model::Out::Interrupted => drive::Out::Fail(std::io::ErrorKind::Interrupted),
            model::Out::Eof => drive::Out::Fail(std::io::ErrorKind::UnexpectedEof),
            model::Out::Failed(k) => drive::Out::Fail(k),
        };
        let on = self.on;
        // `Err` if it matters here, an end of the comparison if it is another property's business
        macro_rules! differ {
            ($flag:expr, $what:expr, $got:expr, $want:expr) => {
                if $got != $want {
                    if on & $flag != 0 {
                        return Err(self.err(&label, $what, format!("{:?}", $got), format!("{:?}", $want)));
                    }
                    return Ok(Step::End("diverged elsewhere"));
                }
            };
        }
        differ!(OUT, "the outcome", o, want_out);
        if let drive::Km::Own(o) = &self.s.km {
            let (got, want) = (o.handed(), std::mem::take(&mut self.m.handed));
            differ!(HANDED, "what the key map was handed", got, want);
        }
        let told = std::mem::take(&mut self.s.comp.events);
        if on & NOTICE != 0 {
            // once for each Tab, before the completer is asked
            let got: Vec<&str> = told.iter().map(|e| &e[..]).filter(|e| !e.contains("Key(")).collect();
            let mut want = if k == Key::Char('\t') { vec!["BeforeComplete"] } else { vec![] };
            if got.len() > 1 && k == Key::Char('\t') {
                want.push("asked");
            }
            differ!(NOTICE, "what the completer heard", got, want);
        }
        if on & EVENTS != 0 {
            // the key may be reported under its other name
            let want = match o {
                drive::Out::Fail(_) => vec![format!("BeforeKey({:?})", k)],
                _ => vec![format!("BeforeKey({:?})", k), format!("AfterKey({:?})", k)],
            };
            let alias = |v: Vec<String>| v.into_iter().map(|e| e.replace("Ctrl('h')", "Backspace")).collect::<Vec<_>>();
            let got: Vec<String> = told.into_iter().filter(|e| e.contains("Key(")).collect();
            let (got, want) = (alias(got), alias(want));
            differ!(EVENTS, "what was announced", got, want);
        }
        if matches!(o, drive::Out::Fail(_)) {
            if on & HIST != 0 {
                differ!(HIST, "the stored history", self.s.history(), self.hist);
            }
            if self.scr.is_some() && self.m.ended {
                if let Err(e) = self.screen(true) {
                    return Err(format!("after {}: {}", label, e));
                }
            }
            return Ok(Step::End("ended by a key"));
        }
        let mt = st(self.m.text());
        if on & RECALL != 0 && s0 != self.s.loc() && s0 == m0 && self.s.loc() == self.m.loc {
            differ!(RECALL, "the line moved to", text, mt);
        }
        differ!(TEXT, "the line", text, mt);
        differ!(LOC, "the history entry", self.s.loc(), self.m.loc);
        if self.m.cursor_open {
            let c = self.s.cursor();
            let n = self.m.text().len();
            if c > n || (self.m.normal() && n > 0 && c == n) {
                return Err(self.err(&label, "the cursor", format!("{}", c), format!("at most {}", n)));
            }
            self.m.cur = c;
        }
        differ!(CURSOR, "the cursor", self.s.cursor(), self.m.cur);
        let done = o == drive::Out::Done;
        if !done {
            differ!(
                OFFER,
                "whether something is suggested",
                self.s.ed.is_currently_showing_autosuggestion(),
                self.m.offered().is_some()
            );
        }
        if done && on & (RESULT | HIST) != 0 {
            let r = self.s.ed.take_exec_buffer();
            differ!(RESULT, "the line returned", r, mt);
        }
        if on & HIST != 0 {
            differ!(HIST, "the stored history", self.s.history(), self.hist);
        }
        if on & ASKED != 0 {
            differ!(ASKED, "what the completer was asked for", self.s.comp.asked, self.m.asked);
        }
        if self.scr.is_some() {
            if self.m.cleared {
                self.scr.as_mut().unwrap().cleared();
            }
            if let Err(e) = self.screen(done) {
                return Err(format!("after {}: {}", label, e));
            }
        }
        st_.compared += 1;
        Ok(if done { Step::End("line entered") } else { Step::Go })
    }
}

impl Space for Lock {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn configs(&self) -> usize {
        self.cfgs.len()
    }
    fn tokens(&self, c: usize) -> usize {
        self.own.get(c).unwrap_or(&self.toks).len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn run(&self, c: usize, seq: &[u16], stats: &mut Stats) -> RunResult {
        let cfg = &self.cfgs[c];
        let mut ctx = cfg.context();
        let mut scr = None;
        let mut vt = None;
        let vi = cfg.keymap == KeyBindings::Vi;
        if self.on & (SCREEN | STATUS | COLOURS) != 0 {
            let v = start(cfg.width, &self.before);
            scr = Some(Screen::new(&v, &cfg.prompt, ""));
            vt = Some(v);
        }
        let plain = Cfg { pre: vec![], ..cfg.clone() };
        let mut s = Sut::start(&plain, &mut ctx, vt);
        s.comp.record = self.on & (ASKED | EVENTS | NOTICE) != 0;
        let mut m = Model::new(vi, &cfg.history, &cfg.init, &cfg.cands);
        m.unfiltered = cfg.unfiltered;
        m.files = s.comp.files.clone();
        m.div = cfg.div;
        m.own = if cfg.own { Some(0) } else { None };
        let hist = cfg.history.clone();
        let mut r = Run { cfg, s, m, on: self.on, scr, hist, status: if cfg.status { Some(("[N] ", "[I] ")) } else { None } };
        if r.s.text() != cfg.init || r.s.cursor() != r.m.cur {
            return Err(format!("the line starts as {:?} with the cursor at {}", r.s.text(), r.s.cursor()));
        }
        if let Err(e) = r.screen(false) {
            return Err(format!("at the start: {}", e));
        }
        for k in &cfg.pre {
            match r.press(*k, stats)? {
                Step::Go => {}
                Step::End(why) => {
                    stats.outcome(why);
                    return Ok(0);
                }
            }
        }
        for (i, tok) in seq.iter().enumerate() {
            for k in &self.tok(c, *tok).0 {
                match r.press(*k, stats)? {
                    Step::Go => {}
                    Step::End(why) => {
                        stats.outcome(why);
                        return Ok(i + 1);
                    }
                }
            }
            let m = &r.m;
            stats.state(&(
                c,
                m.text(),
                m.cur,
                m.loc,
                m.normal(),
                m.search.as_ref().map(|s| (s.pos, s.matches.len(), s.forward)),
                m.new.steps.len(),
                m.list.as_ref().map(|l| l.1),
            ));
        }
        stats.outcome("still editing");
        Ok(seq.len())
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let k: Vec<Key> = seq.iter().flat_map(|t| self.tok(c, *t).0.iter().cloned()).collect();
        let b = if self.before.is_empty() { String::new() } else { format!(" after output {:?}", self.before) };
        format!("{}{} | keys: {}", self.cfgs[c].show(), b, api::names(&k))
    }
}
