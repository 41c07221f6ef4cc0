//! C29: every line is read as if it were the first one.
use crate::drive::*;
use crate::engine::*;
use crate::props::io::mem;
use liner::Key::{self, *};
use liner::{Buffer, EditorContext, KeyBindings};
use std::io;

/// How one line is read.
#[derive(Clone, Debug)]
struct Line {
    cfg: Cfg,
    keys: Vec<Key>,
    /// The terminal operation that fails.
    fail_at: Option<usize>,
    /// On the second of two contexts.
    second: bool,
    /// Read this often.
    times: usize,
}

struct Afresh {
    name: &'static str,
    lines: Vec<Line>,
    depth: usize,
}

type Res = (Result<String, io::ErrorKind>, usize, Vec<u8>, Vec<String>, Vec<String>);

fn read(ctx: &mut Ctx, l: &Line) -> Res {
    ctx.key_bindings = l.cfg.keymap;
    ctx.terminal.width = l.cfg.width;
    ctx.terminal.keys = l.keys.iter().cloned().collect();
    ctx.terminal.fail_at = l.fail_at.map(|n| n + ctx.terminal.ops.get());
    ctx.terminal.failed.set(None);
    ctx.terminal.out.clear();
    let mut comp = Comp { cands: l.cfg.cands.clone(), filter: !l.cfg.unfiltered, record: true, ..Default::default() };
    let r = ctx.read_line_with_init_buffer(l.cfg.make_prompt(), &mut comp, l.cfg.closure(), &l.cfg.init[..]).map_err(|e| e.kind());
    (r, ctx.terminal.keys.len(), std::mem::take(&mut ctx.terminal.out), comp.asked, comp.events)
}

impl Space for Afresh {
    fn name(&self) -> String {
        self.name.into()
    }
    fn configs(&self) -> usize {
        2
    }
    fn tokens(&self, _: usize) -> usize {
        self.lines.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn min_depth(&self) -> usize {
        1
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let v: Vec<String> = seq
            .iter()
            .map(|t| {
                let l = &self.lines[*t as usize];
                format!(
                    "\n    {}{} times with {}{} keys {}",
                    if l.second { "(on another context) " } else { "" },
                    l.times,
                    l.cfg.show(),
                    l.fail_at.map_or(String::new(), |n| format!(" (terminal operation {} fails)", n)),
                    keys(&l.keys)
                )
            })
            .collect();
        format!("{} lines read{}", if c == 0 { "empty history," } else { "history of three," }, v.join(""))
    }
    fn run(&self, c: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let h: &[&str] = if c == 0 { &[] } else { &["ab c", "xa", "b\\"] };
        let base = Cfg::emacs("").hist(h);
        let mut ctxs = [base.context(), base.context()];
        for (i, t) in seq.iter().enumerate() {
            let l = &self.lines[*t as usize];
            let ctx = &mut ctxs[l.second as usize];
            for n in 1..l.times {
                st.steps += 1;
                if let Ok(text) = read(ctx, l).0 {
                    // now and then another one, so that they are not left out
                    ctx.history.push(Buffer::from(if n % 2 == 0 { "b".into() } else { text })).map_err(|e| e.to_string())?;
                }
            }
            let before = mem(ctx);
            let got = read(ctx, l);
            st.steps += 1;
            st.note(|| format!("line {}: {:?}, {} keys left, printed {:?}", i + 1, got.0, got.1, String::from_utf8_lossy(&got.2)));
            if i + 1 == seq.len() {
                let mut fresh = base.context();
                fresh.history.buffers = before.iter().map(|h| Buffer::from(&h[..])).collect();
                let want = read(&mut fresh, l);
                let text = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
                if (&got.0, got.1) != (&want.0, want.1) {
                    return Err(format!("line {}: {:?} with {} keys left, as a first line {:?} with {}", i + 1, got.0, got.1, want.0, want.1));
                }
                if got.2 != want.2 {
                    return Err(format!("line {}: {:?} is printed, as a first line {:?}", i + 1, text(&got.2), text(&want.2)));
                }
                if (&got.3, &got.4) != (&want.3, &want.4) {
                    return Err(format!("line {}: the completer is asked and told {:?} {:?}, as a first line {:?} {:?}", i + 1, got.3, got.4, want.3, want.4));
                }
                if mem(ctx) != before {
                    return Err(format!("line {}: the history became {:?}, from {:?}", i + 1, mem(ctx), before));
                }
                st.outcome(match got.0 {
                    Ok(_) => "line read",
                    Err(_) => "line abandoned",
                });
                st.compared += 1;
                st.state(&(&got.0.as_ref().ok(), before, got.2));
            } else if let Ok(text) = got.0 {
                ctx.history.push(Buffer::from(text)).map_err(|e| e.to_string())?;
            }
        }
        Ok(seq.len())
    }
}

/// `^` Ctrl, `<` Alt, arrows, `⏎` Enter, `⇥` Tab, `⎋` Esc, `⌫` Backspace.
fn script(s: &str) -> Vec<Key> {
    crate::props::sweep::keyed(s, 'a').into_iter().flat_map(|t| t.0).collect()
}

pub fn c29(ex: &mut Explorer) {
    ex.rule = "all sequences of lines read one after the other on one context (or two in turn), of all kinds: entered, given up, ended by the \
               terminal; the last one compared with the same line read on a new context with the same history; cases are distinct by \
               the history, what is printed and the result"
        .into();
    let emacs = [
        "a b ⏎", "⏎", "a ^c", "a", "^d", "↑ ⏎", "↑ x ⏎", "↑ ↑ ^c", "^r a ⏎ ⏎", "^r a ^c", "^s b", "^r ^r", "a ⇥ ⇥ ⏎ ^c", "⇥ ⇥", "⇥ ⏎ ⏎ ⏎", "a ⌫ ^x ⏎", "<. ⏎", "<. ^c", "x ^f ⏎",
        "a b ← ← \\ ⏎ ⏎", "x \\ ⏎ b ^c", "<< ^c", "<> ⏎", "a ↑ ↓ b ⏎", "^l a ⏎", "<r ⏎", "^w ^u ^x ^x ⏎", "a ^k ⏎ z z",
    ];
    let vi = [
        "a b ⏎", "⎋ ⏎", "a ⎋ d ^c", "a ⎋ 3", "⎋ . ⏎", "a b ⎋ x ⏎", "a b ⎋ 0 f b ⏎", "⎋ ; ⏎", "⎋ , ⏎", "a b ⎋ u ⏎", "⎋ u ⏎", "⎋ k x ⏎", "⎋ k 2 x ^c", "⎋ k d f c ⏎", "⎋ 3 ^c", "⎋ r ^c", "a ⎋ c w z",
        "⎋ 3 i a ^c", "⎋ i x ⎋ . ⏎", "^r a ⏎ ⏎", "⎋ ^r b", "⎋ ~ ⏎", "⎋ 4 . ⏎", "⎋ k 0 t b T b ; ⏎", "⎋ c c b ⏎", "a ⇥ ⎋ ⏎",
    ];
    let plain = |vi: bool| if vi { Cfg::vi("").status() } else { Cfg::emacs("") }.cands(&["ab", "ac", "x"]);
    let mut lines = vec![];
    for (v, list) in [(false, &emacs[..]), (true, &vi[..])] {
        for s in list {
            lines.push(Line { cfg: plain(v), keys: script(s), fail_at: None, second: false, times: 1 });
        }
    }
    ex.explore(&Afresh { name: "every two lines, all settings", lines: {
        let mut all = vec![];
        for l in &lines {
            let v = l.cfg.keymap == KeyBindings::Vi;
            for cfg in [
                l.cfg.clone(),
                l.cfg.clone().init("a b").width(5),
                l.cfg.clone().prompt("x\n世> ").colour(),
                if v { Cfg::vi("") } else { Cfg::emacs("").prompt("") },
            ] {
                for fail_at in [None, Some(3), Some(9)] {
                    all.push(Line { cfg: cfg.clone(), fail_at, ..l.clone() });
                }
            }
        }
        all
    }, depth: 2 });
    let three: Vec<Line> = lines.iter().cloned().chain([3usize, 12, 20].iter().map(|n| Line { fail_at: Some(*n), ..lines[6].clone() })).collect();
    ex.explore(&Afresh { name: "three lines", lines: three, depth: ex.pick(3, 4) });
    let mut two = vec![];
    for i in [0, 2, 6, 8, 9, 12, 16, 20, 28, 31, 33, 38, 44, 46] {
        for second in [false, true] {
            two.push(Line { second, ..lines[i].clone() });
        }
    }
    ex.explore(&Afresh { name: "two contexts", lines: two, depth: ex.pick(3, 4) });
    // hundreds of lines in between
    let mut many = vec![];
    for i in [0, 2, 3, 4, 5, 6, 8, 9, 12, 15, 16, 20, 23, 28, 31, 33, 36, 38, 44, 46] {
        for times in [1, ex.pick(120, 300), ex.pick(1100, 2200)] {
            many.push(Line { times, ..lines[i].clone() });
        }
    }
    for n in [3, 12] {
        many.push(Line { fail_at: Some(n), times: 300, ..lines[6].clone() });
    }
    ex.explore(&Afresh { name: "many lines", lines: many, depth: 2 });
}
