//! C01: no key sequence crashes or hangs the editor; the cursor stays in the line.
use crate::drive::*;
use crate::engine::*;
use crate::lockstep::{singles, toks, Tok};
use crate::model::Model;
use liner::Key::{self, *};

pub struct Robust {
    pub name: String,
    pub cfgs: Vec<Cfg>,
    pub keys: Vec<Tok>,
    pub depth: usize,
}

impl Space for Robust {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn configs(&self) -> usize {
        self.cfgs.len()
    }
    fn tokens(&self, _: usize) -> usize {
        self.keys.len()
    }
    fn max_depth(&self) -> usize {
        self.depth
    }
    fn run(&self, c: usize, seq: &[u16], st: &mut Stats) -> RunResult {
        let cfg = &self.cfgs[c];
        let mut ctx = cfg.context();
        let mut s = Sut::start(cfg, &mut ctx, None);
        // whether it is in normal mode follows from the keys, as long as the documentation says what they do
        let vi = cfg.keymap == liner::KeyBindings::Vi;
        let mut m = Model::new(vi, &cfg.history, &cfg.init, &cfg.cands);
        for k in cfg.pre.iter().take_while(|_| vi) {
            m.key(*k);
        }
        let mut known = vi && !m.open;
        let ks = seq.iter().enumerate().flat_map(|(i, t)| self.keys[*t as usize].0.iter().map(move |k| (i, *k)));
        for (i, k) in ks {
            let o = s.press(k);
            st.steps += 1;
            let n = s.ed.current_buffer().num_chars();
            st.note(|| format!("{:?} -> {:?} text={:?} cursor={}", k, o, s.text(), s.cursor()));
            match o {
                Out::Cont => {}
                Out::Done => {
                    st.outcome("line entered");
                    return Ok(i + 1);
                }
                Out::Fail(e) => {
                    let want = match k {
                        Ctrl('c') => e == std::io::ErrorKind::Interrupted,
                        Ctrl('d') => e == std::io::ErrorKind::UnexpectedEof,
                        _ => false,
                    };
                    if !want {
                        return Err(format!("key {:?} failed with {:?}", k, e));
                    }
                    st.outcome("ended by a key");
                    return Ok(i + 1);
                }
            }
            if known {
                m.key(k);
                known = !m.open;
            }
            let normal = known && m.normal();
            let max = if normal { n.saturating_sub(1) } else { n };
            if s.cursor() > max {
                return Err(format!(
                    "after token {} ({:?}) the cursor is at {} in a line of {} characters (normal mode: {})",
                    i + 1,
                    k,
                    s.cursor(),
                    n,
                    normal
                ));
            }
            st.state(&(c, s.text(), s.cursor(), s.loc(), normal, s.ed.is_currently_showing_autosuggestion()));
        }
        st.outcome("still editing");
        Ok(seq.len())
    }
    fn describe(&self, c: usize, seq: &[u16]) -> String {
        let k: Vec<Key> = seq.iter().flat_map(|t| self.keys[*t as usize].0.iter().cloned()).collect();
        format!("{} | keys: {}", self.cfgs[c].show(), keys(&k))
    }
}

pub fn all_emacs() -> Vec<Key> {
    let mut v = vec![
        Char('a'), Char('é'), Char('世'), Char(' '), Char('\\'), Char('\n'), Char('\t'), Left, Right, Up, Down, Home, End,
        Backspace, Delete, Esc, Null, Insert, PageUp, F(1), BackTab,
    ];
    for c in "abcdefhklnprsuwx".chars() {
        v.push(Ctrl(c));
    }
    for c in ['<', '>', '\x7f', 'f', 'b', 'r', '.', 'z'] {
        v.push(Alt(c));
    }
    v
}

pub fn all_vi() -> Vec<Key> {
    let mut v = vec![
        Char('\n'), Char('\t'), Left, Right, Up, Down, Home, End, Backspace, Delete, Esc, Char('é'), Char('\\'), PageUp, Alt('b'),
    ];
    for c in "iaAIsrdcDC.hlkjtTfF;,wWeEbBg0123^$x~u ".chars() {
        v.push(Char(c));
    }
    for c in "cdfhlrs[".chars() {
        v.push(Ctrl(c));
    }
    v
}

fn cfgs(base: Cfg) -> Vec<Cfg> {
    let b = |n: &str| Cfg { name: n.into(), ..base.clone() };
    vec![
        b("plain"),
        b("text").init("ab ça\\ d"),
        b("history").hist(&["aé b", "", "a", "xa 世\nxaé", "éa"]).init("a"),
        b("cands").init("a b").cands(&["aé", "aéb", "aéc", "b"]).width(20),
        b("narrow").prompt("p> ").init("世a\nb").hist(&["世a\nbé", "世a\nb世世世世"]).width(7),
        b("one column").init("a世\nb").hist(&["ab\na"]).cands(&["aab", "aac"]).width(1),
        b("no width").init("a").cands(&["aab", "aac"]).width(0),
    ]
}

/// Whole vi commands.
fn commands() -> Vec<Tok> {
    let mut t = toks(&[
        "x", "9x", "rb", "3rb", "r\x1b", "~", "9~", "D", "sX\x1b", "ia b\x1b", "2iX\x1b", "aX\x1b", "A.\x1b", "IY\x1b", "cwX\x1b", "ccX\x1b", "CX\x1b", "c\x1b",
        "cc\x1b", "dd", "dw", "d9w", "db", "de", "dge", "d$", "d0", "dfb", "dTa", "d\x1b", "df\x1b", "dg\x1b", "cg\x1b", "cfz", "f\x1b", "g\x1b", "2\x1b", ".",
        "3.", "u", "9u", "0", "$", "w", "fa", "Tb", ";", ",", "ge", "k", "j", "i", "a", "A", "99999999999l", "4294967296x", "d4294967295l", "r\n", "2ré",
    ]);
    for k in [Up, Down, Left, Right, Home, End, Backspace, Delete, Char('\n'), Char('\t'), Ctrl('r'), Ctrl('f'), Ctrl('l'), Ctrl('s'), F(2)] {
        t.push(Tok(vec![k]));
    }
    t.push(Tok(vec![Char('r'), Left]));
    t.push(Tok(vec![Char('d'), Ctrl('r')]));
    t.push(Tok(vec![Char('c'), Up]));
    t.push(Tok(vec![Char('d'), Char('\t')]));
    t.push(Tok(vec![Char('2'), Char('d'), Right]));
    t
}

pub fn run(ex: &mut Explorer) {
    ex.rule = "all key sequences of the stated depth over the full key alphabet".into();
    let d = ex.pick(3, 4);
    let e = Robust { name: "emacs".into(), cfgs: cfgs(Cfg::emacs("")), keys: singles(&all_emacs()), depth: d };
    ex.explore(&e);
    let e = Robust { name: "vi".into(), cfgs: cfgs(Cfg::vi("").status()), keys: singles(&all_vi()), depth: d };
    ex.explore(&e);
    // from vi normal mode, with something to undo
    let ready: Vec<Cfg> = cfgs(Cfg::vi("").status()).into_iter().map(|c| c.pre(&[Char('a'), Esc, Char('x')])).collect();
    let e = Robust { name: "vi, normal mode".into(), cfgs: ready.clone(), keys: singles(&all_vi()), depth: d };
    ex.explore(&e);
    let d = ex.pick(3, 4);
    let e = Robust { name: "vi commands".into(), cfgs: ready.clone(), keys: commands(), depth: d };
    ex.explore(&e);
    // fewer keys, for longer
    let v = &ready[..4];
    let few = vec![Char('a'), Char('x'), Char('r'), Char('u'), Char('d'), Char('i'), Char('b'), Char('.'), Esc, Up, Left, Ctrl('r'), Char('\t')];
    let d = ex.pick(5, 6);
    let e = Robust { name: "vi, fewer keys".into(), cfgs: v.to_vec(), keys: singles(&few), depth: d };
    ex.explore(&e);
    let few = vec![Char('a'), Char(' '), Char('\\'), Backspace, Left, Up, Down, Char('\t'), Char('\n'), Ctrl('r'), Ctrl('x'), Ctrl('w'), Alt('.'), Ctrl('f')];
    let d = ex.pick(5, 6);
    let e = Robust { name: "emacs, fewer keys".into(), cfgs: cfgs(Cfg::emacs(""))[..5].to_vec(), keys: singles(&few), depth: d };
    ex.explore(&e);
    // odd texts: characters without width, widths above the terminal's, controls, many lines and entries
    let odd = |b: Cfg| {
        let many: Vec<String> = (0..1200).map(|i| format!("a{}", i)).collect();
        let long = "世b ".repeat(700);
        vec![
            b.clone().init("a\u{301}\u{200b}\u{feff}\0\x1b[3m\u{7f}\r\t").hist(&["\u{301}", "\0\0", "\u{301}a"]).width(3),
            b.clone().init(&long).hist(&[&long[..], "世"]).width(9),
            b.clone().init("\n\n\n").hist(&["\n", "\n\n\n\na", "a\n"]).prompt("p\nq\n").width(4),
            b.clone().hist(&many).init("a1").prompt("\x1b[1mvery long prompt, longer than the terminal is wide\x1b[0m").width(10),
            b.clone().cands(&["", "a", "\u{301}", "世世世世世世世世世世世世世世", "a b", "a\nb"]).init(" ").width(6),
            b.clone().cands(&["a\u{301}", "a\u{300}", "é", "e\u{301}"]).init("é a").prompt("\u{301}").width(2),
        ]
    };
    let d = ex.pick(3, 3);
    let k = vec![Char('a'), Char('世'), Char('\u{301}'), Left, Right, Home, Up, Down, Backspace, Delete, Char('\t'), Char('\n'), Ctrl('r'), Ctrl('x'), Ctrl('w'), Ctrl('k'), Alt('.'), Alt('b'), Ctrl('l'), Alt('<'), Ctrl('f')];
    let e = Robust { name: "odd texts, emacs".into(), cfgs: odd(Cfg::emacs("")), keys: singles(&k), depth: d };
    ex.explore(&e);
    let e = Robust { name: "odd texts, vi".into(), cfgs: odd(Cfg::vi("")).into_iter().map(|c| c.pre(&[Esc])).collect(), keys: commands(), depth: ex.pick(2, 3) };
    ex.explore(&e);
}
