//! C19 and the read loop: whole lines read through `read_line`, with a terminal that fails.
use crate::drive::*;
use crate::engine::*;
use crate::term::{TermOp, FAULT_MSG};
use crate::props::api::{self, Api};
use liner::{Buffer, Editor, EditorContext, Key};
use std::io;

fn read(cfg: &Cfg, ctx: &mut Ctx, init: &str) -> io::Result<String> {
    let mut comp = Comp { cands: cfg.cands.clone(), filter: true, ..Default::default() };
    ctx.read_line_with_init_buffer(cfg.make_prompt(), &mut comp, cfg.closure(), init)
}

pub fn mem(ctx: &Ctx) -> Vec<String> {
    ctx.history.buffers.iter().map(|b| b.to_string()).collect()
}

type Res = Result<String, (io::ErrorKind, String)>;

fn res(r: io::Result<String>) -> Res {
    r.map_err(|e| (e.kind(), e.to_string()))
}

// ---- C19

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    /// One operation fails, with this kind of error.
    Once(io::ErrorKind),
    /// The terminal is gone from then on.
    Gone,
    /// One write is interrupted.
    Again,
}

const FAULTS: [Fault; 8] = [
    Fault::Once(io::ErrorKind::TimedOut),
    Fault::Once(io::ErrorKind::UnexpectedEof),
    Fault::Once(io::ErrorKind::Interrupted),
    Fault::Once(io::ErrorKind::WouldBlock),
    Fault::Once(io::ErrorKind::BrokenPipe),
    Fault::Once(io::ErrorKind::Other),
    Fault::Gone,
    Fault::Again,
];

pub struct Faults {
    pub name: String,
    pub cfgs: Vec<Cfg>,
    pub keys: Vec<Key>,
    pub depth: usize,
    /// The keys stand for calls of the editor's operations.
    pub calls: bool,
}

impl Faults {
    fn all(&self, c: usize, seq: &[u16]) -> Vec<Key> {
        self.cfgs[c].pre.iter().cloned().chain(seq.iter().map(|t| self.keys[*t as usize])).collect()
    }
    fn one(&self, cfg: &Cfg, keys: &[Key], fail_at: Option<usize>, fault: Fault, max_write: usize) -> (Res, Ctx) {
        let mut ctx = cfg.context();
        ctx.terminal.keys = keys.iter().cloned().collect();
        ctx.terminal.fail_at = fail_at;
        ctx.terminal.soft = fault == Fault::Again;
        ctx.terminal.gone = fault == Fault::Gone;
        if let Fault::Once(k) = fault {
            ctx.terminal.kind = k;
        }
        ctx.terminal.max_write = max_write;
        let r = if self.calls { res(self.called(cfg, &mut ctx, keys)) } else { res(read(cfg, &mut ctx, &cfg.init)) };
        (r, ctx)
    }
    /// A program that calls the editor's operations itself, up to the first one that fails.
    fn called(&self, cfg: &Cfg, ctx: &mut Ctx, keys: &[Key]) -> io::Result<String> {
        let mut comp = Comp { cands: cfg.cands.clone(), filter: true, ..Default::default() };
        let mut ed = Editor::new_with_init_buffer(cfg.make_prompt(), cfg.closure(), ctx, cfg.init.as_str())?;
        for k in keys {
            let t = &mut ed.context_mut().terminal;
            t.last_key = t.ops.get();
            t.keys.pop_front();
            if api::of(*k).expect("a call").on(&mut ed, Some(&mut comp))? == Some(true) && api::ends(*k) {
                break;
            }
        }
        Ok(ed.current_buffer().to_string())
    }
    /// A line read afterwards on the same context is read as on a new one.
    fn later(&self, cfg: &Cfg, ctx: &mut Ctx) -> Result<(), String> {
        use Key::*;
        ctx.terminal.fail_at = None;
        ctx.terminal.soft = false;
        ctx.terminal.gone = false;
        ctx.terminal.max_write = usize::MAX;
        ctx.terminal.out.clear();
        let keys: Vec<Key> = match cfg.keymap {
            liner::KeyBindings::Emacs => vec![Char('a'), Up, Char('b'), Down, Char('c'), Ctrl('a'), Char('d'), Char('\n')],
            liner::KeyBindings::Vi => vec![Char('a'), Up, Char('b'), Down, Char('c'), Esc, Char('0'), Char('x'), Char('\n')],
        };
        ctx.terminal.keys = keys.iter().cloned().collect();
        let got = res(read(cfg, ctx, ""));
        let mut fresh = cfg.context();
        fresh.terminal.keys = keys.into_iter().collect();
        let want = res(read(cfg, &mut fresh, ""));
        if got != want || got.is_err() {
            return Err(format!("a line read afterwards gives {:?}, expected {:?}", got, want));
        }
        if ctx.terminal.out != fresh.terminal.out {
            return Err(format!(
                "reading a line afterwards prints {:?}, expected {:?}",
                String::from_utf8_lossy(&ctx.terminal.out),
                String::from_utf8_lossy(&fresh.terminal.out)
            ));
        }
        Ok(())
    }
}

impl Space for Faults {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn configs(&self) -> usize {
        self.cfgs.len()
    }
    fn tokens(&self, _: usize) -> usize {
        self.keys.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let k: Vec<Key> = self.all(c, seq);
        if self.calls {
            return format!("{} | calls: {}", self.cfgs[c].show(), api::names(&k));
        }
        format!("{} | keys: {}", self.cfgs[c].show(), keys(&k))
    }
    fn run(&self, c: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let cfg = &self.cfgs[c];
        let k: Vec<Key> = self.all(c, seq);
        let (base, ctx) = self.one(cfg, &k, None, Fault::Gone, usize::MAX);
        let ops = ctx.terminal.ops.get();
        let used = k.len() - ctx.terminal.keys.len();
        // end of input and keys that end the line
        let mut m = cfg.context();
        let mut s = Sut::start(&Cfg { pre: vec![], ..cfg.clone() }, &mut m, None);
        let mut end = None;
        for key in &k[..used] {
            let out = if self.calls { api::of(*key).expect("a call").run(&mut s).0 } else { s.press(*key) };
            match out {
                Out::Cont => {}
                Out::Done => end = Some(Ok(s.text())),
                Out::Fail(e) => end = Some(Err(e)),
            }
        }
        let want = end.unwrap_or_else(|| Ok(s.text()));
        if base.clone().map_err(|e| e.0) != want {
            return Err(format!("without a failure reading gives {:?}, expected {:?}", base, want));
        }
        if mem(&ctx) != cfg.history {
            return Err(format!("without a failure the history became {:?}", mem(&ctx)));
        }
        st.note(|| format!("without a failure: {:?}, {} operations", base, ops));
        // writes taken a few bytes at a time, or interrupted, are gone on with
        for n in [1, 3] {
            let (r, x) = self.one(cfg, &k, None, Fault::Gone, n);
            st.steps += 1;
            if r != base || x.terminal.out != ctx.terminal.out {
                return Err(format!("writing at most {} bytes at a time: {:?}, expected {:?}", n, r, base));
            }
        }
        // what fails before the last key was read fails in a shorter sequence, too
        let first = if used == k.len() { ctx.terminal.last_key } else { ops };
        for at in first..ops {
            for fault in FAULTS {
                let (r, mut x) = self.one(cfg, &k, Some(at), fault, usize::MAX);
                st.steps += 1;
                let failed = x.terminal.failed.get();
                let what = || format!("operation {} ({:?}, {:?}) of {} fails", at + 1, failed.unwrap(), fault, ops);
                let op = match failed {
                    Some(op) => op,
                    None => return Err(format!("operation {} is not reached a second time", at + 1)),
                };
                st.outcome(&format!("{:?} {:?}: {}", op, fault, if r.is_ok() { "no error" } else { "error" }));
                let retried = fault == Fault::Once(io::ErrorKind::Interrupted);
                if (fault == Fault::Again || retried) && op == TermOp::Write {
                    if r != base || x.terminal.out != ctx.terminal.out {
                        return Err(format!("{}: {:?}, expected {:?}", what(), r, base));
                    }
                } else {
                    let kind = if let Fault::Once(k) = fault { k } else { io::ErrorKind::TimedOut };
                    let injected = matches!(&r, Err((k, m)) if *k == kind && m == FAULT_MSG);
                    // a default may be used when the width is not known
                    let fine = injected || ((op == TermOp::Width || retried) && fault != Fault::Gone && r == base);
                    if !fine {
                        return Err(format!("{}: the result is {:?}", what(), r));
                    }
                }
                if mem(&x) != cfg.history {
                    return Err(format!("{}: the history became {:?}, from {:?}", what(), mem(&x), cfg.history));
                }
                self.later(cfg, &mut x).map_err(|e| format!("{}: {}", what(), e))?;
                st.compared += 1;
                st.state(&(c, seq, at, format!("{:?}", fault)));
            }
        }
        Ok(used.max(cfg.pre.len()) - cfg.pre.len())
    }
}

/// All printable characters, and all others key maps know of.
fn every_key() -> Vec<Key> {
    use Key::*;
    let mut k: Vec<Key> = (' '..='~').map(Char).collect();
    k.extend(['\n', '\t', 'é'].map(Char));
    k.extend(('a'..='z').map(Ctrl));
    k.extend("abcdflrtuy<>.".chars().map(Alt));
    k.extend([Esc, Left, Right, Up, Down, Home, End, Backspace, Delete, Insert, PageUp, PageDown, Null, F(1)]);
    k
}

pub fn c19(ex: &mut Explorer) {
    use Key::*;
    ex.level = "fault_enumeration";
    ex.rule = "all key sequences of the stated depth read through read_line; for each, every single read, write, flush or width query \
               failing once, failing for good, or interrupted, and short writes; cases are distinct by keys, operation and kind of failure"
        .into();
    let h = ["ab c", "a\nb", "abc"];
    let b = |b: Cfg| {
        vec![
            b.clone().hist(&h).cands(&["ab", "ac"]),
            b.clone().hist(&h).init("a b").colour(),
            b.clone().init("世a").prompt("x\n$ ").width(6),
        ]
    };
    let k: Vec<Key> = vec![
        Char('a'), Char('\\'), Char('\n'), Char('\t'), Left, Right, Up, Down, Backspace, Delete, Home, Ctrl('c'), Ctrl('d'), Ctrl('f'), Ctrl('r'),
        Ctrl('s'), Ctrl('u'), Ctrl('w'), Ctrl('k'), Ctrl('l'), Ctrl('x'), Alt('b'), Alt('<'), Alt('>'), Alt('.'), Alt('r'), Ctrl('h'), Ctrl('e'),
    ];
    ex.explore(&Faults { name: "Emacs".into(), cfgs: b(Cfg::emacs("")), keys: k, depth: ex.pick(3, 4), calls: false });
    let mut k: Vec<Key> = "aidcwx0$ru.2~CDfTkjt;p\x1b".chars().map(|c| if c == '\x1b' { Esc } else { Char(c) }).collect();
    k.extend([Char('\n'), Char('\t'), Left, Up, Down, Backspace, Ctrl('c'), Ctrl('r'), Ctrl('f'), Ctrl('l')]);
    ex.explore(&Faults { name: "vi".into(), cfgs: b(Cfg::vi("").status()), keys: k, depth: ex.pick(3, 4), calls: false });
    let k: Vec<Key> = "awx0$ru2.~Dftj;pbg^CcdTk".chars().map(Char).chain([Char(' '), Ctrl('r'), Ctrl('x'), Esc, Delete, Home, Right]).collect();
    let n = |c: Cfg| c.pre(&[Esc, Char('0')]);
    let cfgs = vec![n(Cfg::vi("").hist(&h).init("ab a,b").status()), n(Cfg::vi("").hist(&h).init("世a a").prompt("x\n$ ").width(6))];
    ex.explore(&Faults { name: "vi, normal mode".into(), cfgs, keys: k, depth: ex.pick(3, 4), calls: false });
    let k: Vec<Key> = vec![Char('a'), Char('\n'), Char('\t'), Left, Up, Ctrl('r'), Ctrl('d'), Backspace];
    ex.explore(&Faults { name: "Emacs, few keys".into(), cfgs: b(Cfg::emacs("")), keys: k, depth: ex.pick(5, 6), calls: false });
    let k: Vec<Key> = vec![Char('a'), Char('d'), Char('c'), Char('w'), Char('.'), Char('\n'), Up, Esc, Ctrl('r')];
    ex.explore(&Faults { name: "vi, few keys".into(), cfgs: b(Cfg::vi("").status()), keys: k, depth: ex.pick(4, 5), calls: false });
    // every operation, called by the program
    let e = Cfg::emacs("calls");
    let cfgs = vec![e.clone().hist(&h).cands(&["ab", "ac"]).init("a b"), e.clone().hist(&h).colour().made(), e.init("世a").prompt("x\n$ ").width(6)];
    let k = api::calls(api::API).into_iter().filter(|k| !api::names(&[*k]).contains("RevertAll")).collect();
    ex.explore(&Faults { name: "every call".into(), cfgs: cfgs.clone(), keys: k, depth: ex.pick(2, 3), calls: true });
    let k = api::calls(&[
        Api::Str("a"), Api::DelAllBefore, Api::Undo, Api::Redo, Api::Revert, Api::Up, Api::New, Api::Search(false), Api::Complete, Api::Accept, Api::Left(1),
    ]);
    ex.explore(&Faults { name: "some calls".into(), cfgs, keys: k, depth: ex.pick(4, 5), calls: true });
    // every key there is a meaning for
    let mut cfgs = b(Cfg::emacs(""));
    for i in ["a b,c\nd a", "世a a"] {
        let c = Cfg::vi("").hist(&h).cands(&["ab", "ac"]).init(i).status();
        cfgs.push(c.clone());
        cfgs.push(c.clone().pre(&[Esc]));
        cfgs.push(c.pre(&[Esc, Char('0'), Char('l')]));
    }
    let k = every_key();
    ex.explore(&Faults { name: "every key".into(), cfgs, keys: k, depth: ex.pick(2, 3), calls: false });
}

// ---- the read loop over several lines (C20, C08)

pub struct Reads {
    pub name: String,
    pub cfgs: Vec<Cfg>,
    pub keys: Vec<Key>,
    pub depth: usize,
}

impl Space for Reads {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn configs(&self) -> usize {
        self.cfgs.len()
    }
    fn tokens(&self, _: usize) -> usize {
        self.keys.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let k: Vec<Key> = seq.iter().map(|t| self.keys[*t as usize]).collect();
        format!("{} | lines read with keys: {}", self.cfgs[c].show(), keys(&k))
    }
    fn run(&self, c: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let cfg = &self.cfgs[c];
        let k: Vec<Key> = seq.iter().map(|t| self.keys[*t as usize]).collect();
        let mut ctx = cfg.context();
        ctx.terminal.keys = k.iter().cloned().collect();
        let mut history = cfg.history.clone();
        let mut left = &k[..];
        let mut n = 0;
        loop {
            n += 1;
            // the same keys one by one, on a context that has only seen the history
            let mut m = cfg.context();
            m.history.buffers = history.iter().map(|h| Buffer::from(&h[..])).collect();
            let (want, rest) = {
                let mut s = Sut::start(cfg, &mut m, None);
                let mut i = 0;
                let r = loop {
                    match left.get(i) {
                        None => break Ok(s.text()),
                        Some(key) => {
                            i += 1;
                            st.steps += 1;
                            match s.press(*key) {
                                Out::Cont => {}
                                Out::Done => break Ok(s.text()),
                                Out::Fail(e) => break Err(e),
                            }
                        }
                    }
                };
                (r, &left[i..])
            };
            ctx.terminal.out.clear();
            let got = read(cfg, &mut ctx, &cfg.init).map_err(|e| e.kind());
            m.terminal.keys = left.iter().cloned().collect();
            m.terminal.out.clear();
            let _ = read(cfg, &mut m, &cfg.init);
            if m.terminal.out != ctx.terminal.out {
                return Err(format!(
                    "line {}: {:?} is printed, on a new context {:?}",
                    n,
                    String::from_utf8_lossy(&ctx.terminal.out),
                    String::from_utf8_lossy(&m.terminal.out)
                ));
            }
            st.note(|| format!("line {}: {:?}, {} keys left", n, got, ctx.terminal.keys.len()));
            if got != want {
                return Err(format!("line {}: reading gives {:?}, expected {:?}", n, got, want));
            }
            if ctx.terminal.keys.len() != rest.len() {
                return Err(format!("line {}: {} keys were left unread, expected {}", n, ctx.terminal.keys.len(), rest.len()));
            }
            if mem(&ctx) != history {
                return Err(format!("line {}: the history became {:?}, from {:?}", n, mem(&ctx), history));
            }
            if let Ok(l) = got {
                if history.last() != Some(&l) {
                    history.push(l.clone());
                }
                ctx.history.push(Buffer::from(&l[..])).map_err(|e| e.to_string())?;
                if mem(&ctx) != history {
                    return Err(format!("after pushing line {}: the history is {:?}, expected {:?}", n, mem(&ctx), history));
                }
                st.outcome("line read");
            } else {
                st.outcome("line abandoned");
            }
            st.compared += 1;
            if rest.is_empty() {
                break;
            }
            left = rest;
        }
        st.state(&(c, &history, n));
        Ok(seq.len())
    }
}
