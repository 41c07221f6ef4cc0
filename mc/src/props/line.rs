//! Undo, history, search, suggestions, screen, completion, ends: decided in lockstep with the reference model.
use crate::drive::*;
use crate::engine::*;
use crate::lockstep::*;
use crate::props::io::Reads;
use crate::props::keys::{DIVS, alt, cat, ctrl, ks};
use liner::Key::{self, *};

const T: u32 = TEXT | CURSOR | OUT;

fn e(n: &str) -> Cfg {
    Cfg::emacs(n)
}
fn v(n: &str) -> Cfg {
    Cfg::vi(n)
}

pub fn c07(ex: &mut Explorer) {
    let cfgs = vec![
        e("plain").hist(&["a b", "xa", "ab"]).cands(&["ab", "ac\\ d"]),
        e("initial text").init("a b\\").pre(&[Left]),
        e("recalled").hist(&["a é b", "x"]).made().pre(&[Up, Up, Left]),
    ];
    let k = [
        vec![Char('a'), Char(' '), Left, Home, Backspace, Delete, Up, Down, Char('\t')],
        ctrl("xukwf"),
        alt("r\x7f."),
    ];
    let d = ex.pick(5, 6);
    ex.explore(&Lock::new("Emacs", cfgs.clone(), cat(&k), d, T));
    let mut all = k.to_vec();
    all.push(vec![Char('\\'), Char('\n'), Char('b'), Char('世'), Right, End]);
    all.push(ctrl("rsnplbh"));
    all.push(alt("<>bf"));
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("Emacs, all keys", cfgs, cat(&all), d, T));
    // long runs of few keys
    let d = ex.pick(8, 10);
    let few = cat(&[vec![Char('a'), Backspace, Up], ctrl("xk")]);
    ex.explore(&Lock::new("Emacs, long", vec![e("plain").hist(&["ab", "c"])], few, d, T));

    // vi: whole commands
    let cmds = toks(&[
        "x", "2x", "rb", "~", "D", "ia b\x1b", "2iX\x1b", "aX\x1b", "A.\x1b", "cwX\x1b", "cc\x1b", "dd", "sXY\x1b", "d2w", ".", "2.", "u", "2u", "3u", "k",
        "j", "0", "h", "dfz", "d\x1b", "i\x1b", "9u",
    ]);
    let cfgs = vec![v("text").hist(&["aé.a", "b"]).init("a b").pre(&ks("\x1b")), v("empty").hist(&["a b"])];
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("vi commands", cfgs.clone(), cmds, d, T));
    // vi: undo and redo, with counts
    let mut cmds = toks(&["x", "2x", "iab\x1b", ".", "u", "2u", "3u", "9u", "k", "d\x1b"]);
    cmds.extend([&[][..], &[Char('2')], &[Char('3')], &[Char('1'), Char('0')]].map(|c| Tok(c.iter().cloned().chain([VI_REDO]).collect())));
    let d = ex.pick(5, 6);
    ex.explore(&Lock::new("vi, redo", cfgs.clone(), cmds, d, T));
    // undo groups across a search
    let keys = cat(&[ks("ax\x1bu"), vec![Up, Left, Right, Ctrl('r'), Backspace]]);
    let cfgs2 = vec![v("empty").hist(&["ab", "ba"]), v("recalled").hist(&["ab", "ba"]).made().pre(&[Up, Char('b')]), v("text").init("a").hist(&["ab", "ba"])];
    let d = ex.pick(6, 7);
    ex.explore(&Lock::new("vi, searching", cfgs2, keys, d, T));
    // vi: single keys, insert mode included
    let keys = [ks("aix\x1bcdwukrA2"), vec![Left, Backspace, Up, Down, Char('\t'), Ctrl('r'), Ctrl('f')]];
    let cfgs = vec![
        v("text").hist(&["aé.a", "ab"]).init("a b").cands(&["ab", "ac"]),
        v("empty").hist(&["a b"]).pre(&[Esc]),
    ];
    let d = ex.pick(5, 6);
    ex.explore(&Lock::new("vi keys", cfgs, cat(&keys), d, T));
    // every way to move within insert mode
    let moves = cat(&[ks("aiAx\x1bu"), vec![Left, Right, Home, End, Backspace, Delete, Char('\n'), Char('\\'), Up, Ctrl('l')]]);
    let cfgs = vec![v("text").hist(&["a"]).init("ab c").pre(&[Left, Left]), v("empty").hist(&["ab"])];
    let d = ex.pick(5, 6);
    ex.explore(&Lock::new("vi, moving in insert mode", cfgs, moves, d, T));
    let few = cat(&[ks("ax\x1bu"), vec![Left, Backspace, Up]]);
    let d = ex.pick(7, 9);
    ex.explore(&Lock::new("vi keys, long", vec![v("empty").hist(&["b a"])], few, d, T));
}

pub fn c08(ex: &mut Explorer) {
    let on = HIST | RECALL | RESULT;
    let h = ["a b", "", "ba\\ b", "a\nb", "ab", "ab"];
    let cfgs = |b: Cfg| {
        vec![
            b.clone().hist(&h).init("a"),
            b.clone().hist(&h).cands(&["ab", "ac"]),
            b.clone().hist(&h).pre(&[Up, Up]).made(),
            b.hist(&["x"]).init("zz"),
        ]
    };
    let k = [
        vec![Char('a'), Char('\n'), Char('\t'), Left, Right, Up, Down, Backspace, Delete],
        ctrl("cdfklnprsuwx"),
        alt("<>r.\x7f"),
    ];
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("Emacs", cfgs(e("")), cat(&k), d, on));
    let few = cat(&[vec![Char('a'), Char('\n'), Up, Down, Backspace], ctrl("rx"), alt("<>")]);
    let d = ex.pick(6, 7);
    ex.explore(&Lock::new("Emacs, long", cfgs(e("")), few, d, on));
    let k = [ks("aix\x1bcdwukjrA.~D$0G"), vec![Char('\n'), Char('\t'), Up, Down, Right, Backspace], ctrl("cdfrsl")];
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("vi", cfgs(v("")), cat(&k), d, on));
    let few = cat(&[ks("ax\x1bukj."), vec![Char('\n'), Up, Ctrl('r')]]);
    let d = ex.pick(6, 7);
    ex.explore(&Lock::new("vi, long", cfgs(v("")), few, d, on));
    reads(ex);
}

/// Every history of up to `n` entries out of `from`.
fn histories(from: &[&str], n: usize) -> Vec<Vec<String>> {
    let mut all = vec![vec![]];
    let mut last: Vec<Vec<String>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for h in &last {
            for f in from {
                let mut x = h.clone();
                x.push(f.to_string());
                next.push(x);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

pub fn c09(ex: &mut Explorer) {
    let on = TEXT | CURSOR | LOC | OUT;
    // every small history, every line
    let mut cfgs = vec![];
    let n = ex.pick(4, 5);
    for h in histories(&["a", "ab", "ba", "bab", "c", ""], n) {
        for init in ["", "a", "ab"] {
            cfgs.push(e("every history").hist(&h).init(init));
        }
    }
    let k = [vec![Up, Down]];
    let d = n + 2;
    ex.explore(&Lock::new("every history, Up and Down", cfgs, cat(&k), d, on));
    let mut cfgs = vec![];
    for h in histories(&["a", "ab", "ba", "", "éa\nb"], 3) {
        for init in ["", "a", "b"] {
            cfgs.push(e("every history").hist(&h).init(init));
            cfgs.push(v("every history").hist(&h).init(init));
            cfgs.push(v("every history").hist(&h).init(init).pre(&[Esc]));
        }
    }
    let k = [vec![Up, Down, Char('a'), Char('k'), Char('j'), Backspace], ctrl("pnl"), alt("<>")];
    let d = ex.pick(3, 4);
    ex.explore(&Lock::new("every history, all keys", cfgs, cat(&k), d, on));
    let h = ["aé", "b a", "a", "", "ba\nb", "a", "ab", "xaé", "aéb"];
    let cfgs = vec![e("long").hist(&h), e("long").hist(&h).init("a"), e("long").hist(&h).init("é"), e("long").hist(&h[..3]).init("x")];
    let k = [vec![Up, Down, Char('a'), Left, Backspace], ctrl("pnlx"), alt("<>")];
    let d = ex.pick(6, 7);
    ex.explore(&Lock::new("Emacs", cfgs.clone(), cat(&k), d, on));
    let cfgs: Vec<Cfg> = cfgs.into_iter().map(|c| Cfg { keymap: liner::KeyBindings::Vi, ..c }).collect();
    let k = [vec![Up, Down, Char('a'), Char('k'), Char('j'), Char('x'), Esc, Backspace, Ctrl('l')]];
    let d = ex.pick(6, 7);
    ex.explore(&Lock::new("vi", cfgs, cat(&k), d, on));
    // recall mixed with search, completion and suggestions
    let cfgs = vec![e("mixed").hist(&["ab", "b", "ba", "a"]).init("a"), e("mixed").hist(&["ab", "b", "ba", "a"]).cands(&["b", "ab"])];
    let k = [vec![Up, Down, Char('b'), Char('\t'), Right, Backspace, Home], ctrl("rsfl"), alt("<>.")];
    let d = ex.pick(5, 6);
    ex.explore(&Lock::new("with search and completion", cfgs, cat(&k), d, on));
    // a history of many entries
    let many: Vec<String> = (0..60).map(|i| format!("{}{}", if i % 3 == 0 { "a" } else { "ca" }, i)).collect();
    let step = |k: Key, n: usize| Tok(vec![k; n]);
    let t = vec![step(Up, 1), step(Up, 7), step(Up, 30), step(Down, 1), step(Down, 11), step(Down, 40), Tok(vec![Alt('<')]), Tok(vec![Alt('>')])];
    let cfgs = vec![e("many").hist(&many), e("many").hist(&many).init("a"), v("many").hist(&many).init("a1")];
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("many entries", cfgs, t, d, on));
}

pub fn c10(ex: &mut Explorer) {
    let on = STATE | SCREEN;
    let mut cfgs = vec![];
    for h in histories(&["a", "ab", "b", "bab", ""], 3) {
        for init in ["", "a", "b"] {
            cfgs.push(e("every history").hist(&h).init(init));
        }
    }
    let k = cat(&[vec![Char('a'), Char('b'), Backspace, Up, Down, Char('\n')], ctrl("rsf")]);
    let d = ex.pick(4, 4);
    ex.explore(&Lock::new("every history", cfgs, k, d, on));
    let h = ["ab c", "xaé", "b", "éa b", "", "ab", "a\nb", "ab"];
    let k = cat(&[
        vec![Char('a'), Char('b'), Char(' '), Backspace, Up, Down, Left, Right, Char('\n'), Char('\t'), Delete, Home],
        ctrl("rsfxlk"),
        alt("<>."),
    ]);
    let cfgs = vec![
        e("empty").hist(&h),
        e("text").hist(&h).init("a"),
        e("on an entry").hist(&h).init("b").pre(&[Up, Up]),
        e("no match").hist(&h).init("q").cands(&["ab"]),
        e("no history").init("a"),
    ];
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("Emacs", cfgs.clone(), k, d, on));
    let cfgs: Vec<Cfg> = cfgs.into_iter().map(|c| Cfg { keymap: liner::KeyBindings::Vi, ..c }).collect();
    let k = cat(&[ks("abx\x1bkjiuAhl"), vec![Backspace, Up, Down, Right, Char('\n')], ctrl("rsf")]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("vi", cfgs.clone(), k, d, on));
    let k = cat(&[vec![Char('a'), Char('b'), Backspace, Up, Char('\n')], ctrl("rs")]);
    let d = ex.pick(6, 7);
    ex.explore(&Lock::new("long searches", vec![e("empty").hist(&h), v("text").hist(&h).init("b")], k, d, on));
}

pub fn c11(ex: &mut Explorer) {
    let on = STATE | SCREEN | RESULT;
    let mut cfgs = vec![];
    for h in histories(&["a", "ab", "abc", "b", ""], 3) {
        for init in ["", "a", "ab"] {
            cfgs.push(e("every history").hist(&h).init(init));
        }
    }
    let k = cat(&[vec![Char('a'), Char('b'), Backspace, Right, Left, Char('\n')], ctrl("f")]);
    let d = ex.pick(4, 4);
    ex.explore(&Lock::new("every history", cfgs, k, d, on));
    let h = ["a b c", "ab\\ c", "é世", "a b", "ab\nc", "ab", "xa b c"];
    let cfgs = vec![
        e("empty").hist(&h),
        e("text").hist(&h).init("a"),
        e("candidates").hist(&h).init("a").cands(&["ab", "a"]),
        e("escaped").hist(&h).init("ab\\"),
    ];
    let k = cat(&[
        vec![Char('a'), Char('b'), Char(' '), Char('é'), Backspace, Delete, Up, Down, Left, Right, Home, End, Char('\n'), Char('\t'), Esc],
        ctrl("fxlkuwedbarhcp"),
        alt("<>.bfr\x7f"),
    ]);
    let d = ex.pick(3, 4);
    ex.explore(&Lock::new("Emacs, all keys", cfgs.clone(), k, d, on));
    let k = cat(&[
        vec![Char('a'), Char('b'), Char(' '), Backspace, Up, Left, Right, Char('\n'), Char('\t')],
        ctrl("fxr"),
        alt("<>"),
    ]);
    let d = ex.pick(5, 6);
    ex.explore(&Lock::new("Emacs", cfgs.clone(), k, d, STATE | RESULT));
    let cfgs: Vec<Cfg> = cfgs.into_iter().map(|c| Cfg { keymap: liner::KeyBindings::Vi, ..c }).collect();
    let k = cat(&[ks("abx\x1bkiuAhl$cw.e"), vec![Backspace, Up, Down, Right, Left, Char('\n'), Char('\t')], ctrl("frdl")]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("vi", cfgs, k, d, on));
}

pub fn c12(ex: &mut Explorer) {
    let on = SCREEN;
    let hist = ["aé b", "世世a", "ab\ncd", "a\n\nb世", "abcdefgh"];
    let mut cfgs = vec![];
    let prompts = [
        "$ ",
        "",
        "\x1b[1mup\x1b[0m\n> ",
        "\x1b[1;32mé世>\x1b[0m ",
        "\x1b]0;a title\x07\x1b[2K\x1b[38;5;200m>",
        "\x1b]2;tit\x1b\\\x1b(B\x1b[me\u{301}> ",
    ];
    for w in [80usize, 2, 3, 4, 5, 6, 7, 8, 9, 11] {
        for (i, p) in prompts.iter().enumerate() {
            for colour in [false, true] {
                if (colour && i == 2) || (i > 3 && ![80, 3, 5, 8].contains(&w)) {
                    continue;
                }
                let mut c = e("screen").hist(&hist).prompt(p).width(w);
                if colour {
                    c = c.colour();
                }
                cfgs.push(c.clone());
                cfgs.push(c.init("世ab\nc"));
            }
        }
    }
    let k = cat(&[
        vec![Char('a'), Char('世'), Left, Right, Home, Up, Backspace],
        ctrl("lrfcd"),
        vec![Char('\\'), Char('\n')],
    ]);
    let d = ex.pick(3, 4);
    ex.explore(&Lock::new("widths and prompts", cfgs.clone(), k.clone(), d, on));
    // typing long texts
    let d = ex.pick(6, 8);
    let few = cat(&[vec![Char('a'), Char('世'), Left, Backspace]]);
    let narrow: Vec<Cfg> = [3usize, 4, 5, 6].iter().map(|w| e("narrow").hist(&["aaaa世a世"]).prompt("$ ").width(*w)).collect();
    ex.explore(&Lock::new("narrow", narrow, few, d, on));
    // sequences in the prompt that take no space
    let codes = [
        "", "\x1b[m", "\x1b[0;1;31m", "\x1b[38;5;200m", "\x1b[?25h", "\x1b[?2004l", "\x1b[2 q", "\x1b[22;0t", "\x1b[5~", "\x1b]0;a m\x07", "\x1b]8;;x:[1m\x1b\\", "\x1b]\x07",
        "\x1b(B", "\x1b=", "\x1b>", "\x1b#\x20F", "\x1b\\", "\u{301}",
    ];
    let mut cfgs = vec![];
    for a in codes {
        for b in codes {
            for (w, p) in [(5, format!("{}a{}>", a, b)), (6, format!("世{}{}", a, b)), (80, format!("x\n{}[m{}1", a, b))] {
                cfgs.push(e("codes").prompt(&p).width(w).hist(&["b世"]));
            }
        }
    }
    ex.explore(&Lock::new("codes in the prompt", cfgs, cat(&[vec![Char('a'), Char('世'), Left, Up], ctrl("r")]), ex.pick(3, 4), on));
    // characters of no width, and ones of several
    let cfgs: Vec<Cfg> = [80usize, 3, 4, 5, 6]
        .iter()
        .flat_map(|w| [e("marks").hist(&["ae\u{301}世b", "e\u{301}\ne\u{301}"]).width(*w), e("marks").init("e\u{301}\u{308}e").width(*w)])
        .collect();
    let d = ex.pick(5, 6);
    let few = cat(&[vec![Char('a'), Char('e'), Char('\u{301}'), Left, Backspace, Up, Home]]);
    ex.explore(&Lock::new("marks", cfgs, few, d, on));
    // candidate lists
    let lists: [&[&str]; 3] = [&["ab", "ac"], &["世a", "b c", "bcd", "abcdefghij", "世é"], &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k"]];
    let mut cfgs = vec![];
    for l in lists {
        for w in [80, 5, 7, 10, 12, 20] {
            cfgs.push(e("list").cands(l).width(w).hist(&["ab", "bcd"]));
            cfgs.push(e("list").cands(l).width(w).init("x ").prompt("up\n世> "));
        }
    }
    let k = cat(&[vec![Char('\t'), Char('a'), Char('b'), Char(' '), Left, Backspace, Up, Char('\n')], ctrl("lrscd")]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("lists", cfgs, k.clone(), d, on));
    // output before the prompt
    for (i, b) in ["earlier\n", "earlier", "12345", "123456789\n世世", "a\nb\nc\nd\n"].iter().enumerate() {
        let cfgs = [5, 80].iter().map(|w| e("before").cands(&["ab", "ac"]).hist(&["ab\nc", "aé"]).width(*w)).collect();
        let mut l = Lock::new(&format!("after earlier output {}", i), cfgs, k.clone(), ex.pick(3, 4), on);
        l.before = b.to_string();
        ex.explore(&l);
    }
    // vi with a mode in the prompt
    let cfgs = [80, 4, 6, 9]
        .iter()
        .flat_map(|w| {
            [v("vi").status().width(*w).hist(&hist), v("vi").status().width(*w).prompt("up\n> ").init("世 b\nc").hist(&["世", "ab"])]
        })
        .collect();
    let k = cat(&[ks("aix\x1bcdwuk~0$A世"), vec![Backspace, Up, Left], ctrl("lrf")]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("vi", cfgs, k, d, on));
}

pub fn c13(ex: &mut Explorer) {
    let on = TEXT | CURSOR | OUT | ASKED | NOTICE | SCREEN;
    let sets: [&[&str]; 7] = [
        &["ab", "ac"],
        &["abc", "abd", "b"],
        &["a", "ab"],
        &["ab", "a", "ab", "é", "éa"],
        &["a\\ b", "a\\ c"],
        &["b"],
        &["é世a", "é世b", "c"],
    ];
    let base = |b: Cfg| {
        let mut cfgs = vec![];
        for s in sets {
            cfgs.push(b.clone().cands(s).hist(&["ab c", "b"]));
            cfgs.push(b.clone().cands(s).init("x a").pre(&[]));
            cfgs.push(b.clone().cands(s).init("a b é").pre(&[Left, Left]));
        }
        cfgs
    };
    let k = cat(&[
        vec![Char('\t'), Char('a'), Char('b'), Char(' '), Char('é'), Left, Right, Up, Backspace, Char('\n')],
        ctrl("rxlw"),
        alt(".<"),
    ]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("Emacs", base(e("")), k, d, on));
    // completers that offer other things than what begins with the word
    let odd: [&[&str]; 8] = [
        &["b"],
        &["Ab"],
        &["xab", "xac"],
        &["b", "a", "b"],
        &["", "a"],
        &["Abc", "Abd"],
        &["ab", "Ab", "aB"],
        &["世é", "世"],
    ];
    let mut cfgs = vec![];
    for s in odd {
        cfgs.push(e("unfiltered").cands(s).unfiltered().hist(&["a c", "b"]));
        cfgs.push(e("unfiltered").cands(s).unfiltered().init("a é").pre(&[Left]));
        cfgs.push(e("unfiltered").cands(s).unfiltered().init("x aé b").pre(&[Left, Left]));
    }
    let few = cat(&[vec![Char('\t'), Char('a'), Left, Char(' '), Char('\n'), Backspace, Up], ctrl("x")]);
    let d = ex.pick(5, 6);
    ex.explore(&Lock::new("unfiltered candidates", cfgs, few, d, on));
    let few = cat(&[vec![Char('\t'), Char('a'), Left, Char(' '), Char('\n'), Backspace]]);
    let d = ex.pick(6, 7);
    ex.explore(&Lock::new("Emacs, long", base(e("")), few, d, on & !SCREEN));
    let k = cat(&[ks("aixé \x1bcwuk.2"), vec![Char('\t'), Char('\n'), Left, Backspace, Up], ctrl("r")]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("vi", base(v("")), k, d, on & !SCREEN));
    // every line and cursor position, three Tabs
    let mut cfgs = vec![];
    let letters = ['a', ' ', '\\', 'b'];
    let n = ex.pick(5, 6);
    for len in 0..=n {
        for x in 0..letters.len().pow(len as u32) {
            let mut y = x;
            let mut s = String::new();
            for _ in 0..len {
                s.push(letters[y % letters.len()]);
                y /= letters.len();
            }
            for c in 0..=len {
                for set in [&["ab", "ac"][..], &["a\\ bb", "b"][..], &["abb", "aba", "\\ ", "\\"][..]] {
                    cfgs.push(e("every line").init(&s).cands(set).pre(&vec![Left; c]));
                }
            }
        }
    }
    let k = vec![Tok(vec![Char('\t')])];
    ex.explore(&Lock::new("every line", cfgs, k, 4, on & !SCREEN));
    // names of files
    let mut t = cat(&[vec![Char('\t'), Char('a'), Char('b'), Char('d'), Char('D'), Char(' '), Char('\\'), Char('é'), Left, Backspace, Char('\n')], ctrl("w")]);
    t.push(Tok(vec![Char('d'), Char('/')]));
    let cfgs = vec![e("files").files(), e("files").files().init("x d/é\\ x/ a").pre(&[Left, Left]), v("files").files()];
    ex.explore(&Lock::new("names of files", cfgs, t, ex.pick(4, 5), on));
    // words as a program has them divided
    let mut cfgs = vec![];
    for div in DIVS {
        for s in [&["ab", "ac"][..], &["a'b c'", "a'b d'", "b"], &["a/b"], &["'a b"]] {
            cfgs.push(e("divided").div(div).cands(s).init("x/a'b 1a").pre(&[Left, Left]));
            cfgs.push(e("divided").div(div).cands(s).unfiltered().hist(&["  /a 'a b' "]));
        }
    }
    let k = cat(&[vec![Char('\t'), Char('a'), Char(' '), Char('/'), Char('\''), Left, Backspace, Up, Char('\n')]]);
    ex.explore(&Lock::new("words divided otherwise", cfgs, k, ex.pick(4, 5), on));
}

pub fn c20(ex: &mut Explorer) {
    let on = OUT | RESULT | EVENTS;
    let h = ["a b", "ab\\", "", "a\\\nb"];
    let b = |b: Cfg| {
        vec![
            b.clone().hist(&h).cands(&["ab", "ac"]),
            b.clone().hist(&h).init("a"),
            b.clone().hist(&h).init("a\\").pre(&[Up]),
            b.clone().init("a\\b").pre(&[Left]),
            b.prompt("").width(5).hist(&["a"]),
        ]
    };
    let k = cat(&[
        vec![Char('a'), Char('\\'), Char('\n'), Char('\t'), Left, Right, Up, Down, Backspace],
        ctrl("cdfhrsxjm"),
        alt("<."),
    ]);
    let d = ex.pick(5, 6);
    ex.explore(&Lock::new("Emacs", b(e("")), k, d, on));
    let k = cat(&[ks("ai\\x\x1bcdwkur.2"), vec![Char('\n'), Char('\t'), Left, Right, Up, Backspace], ctrl("cdfrh[")]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("vi", b(v("")), k, d, on));
    let k = cat(&[ks("ai\\x\x1bc2"), vec![Char('\n'), Left, Up, Char('\t')], ctrl("cdr")]);
    let d = ex.pick(5, 6);
    ex.explore(&Lock::new("vi, few keys", b(v("")), k, d, on));
    reads(ex);
}

/// Lines read one after the other through `read_line`, entered ones going to the history.
fn reads(ex: &mut Explorer) {
    let cfgs = |b: Cfg| vec![b.clone().hist(&["ab c", "x"]), b.clone(), b.hist(&["a\nb", ""]).init("a").cands(&["ab", "abc"])];
    let k = [vec![Char('a'), Char('\\'), Char('\n'), Char('\t'), Left, Right, Up, Down, Backspace], ctrl("cdrus"), alt(".r<")].concat();
    let d = ex.pick(4, 5);
    ex.explore(&Reads { name: "lines one after the other, Emacs".into(), cfgs: cfgs(e("")), keys: k, depth: d });
    let k = vec![Char('a'), Char('\n'), Up, Down, Backspace, Ctrl('c'), Ctrl('r')];
    let d = ex.pick(6, 7);
    ex.explore(&Reads { name: "lines one after the other, Emacs, few keys".into(), cfgs: cfgs(e("")), keys: k, depth: d });
    let k = [ks("aix\x1bcdwku.2~"), vec![Char('\n'), Up, Backspace, Char('\t')], ctrl("cdr")].concat();
    let d = ex.pick(4, 5);
    ex.explore(&Reads { name: "lines one after the other, vi".into(), cfgs: cfgs(v("").status()), keys: k, depth: d });
    let k = [ks("adw\x1b.ku"), vec![Char('\n')]].concat();
    let d = ex.pick(6, 7);
    ex.explore(&Reads { name: "lines one after the other, vi, few keys".into(), cfgs: cfgs(v("").status()), keys: k, depth: d });
}

pub fn c23(ex: &mut Explorer) {
    let on = STATUS | OUT;
    let cfgs = vec![
        v("text").status().init("a b").hist(&["ab c", "b"]),
        v("list").status().cands(&["ab", "ac"]).hist(&["ab", ""]),
        v("narrow").status().width(6).init("ab").hist(&["abc"]),
        v("lines").status().prompt("up\n$ ").init("a\nb"),
        v("without").init("a b").hist(&["ab"]),
    ];
    let k = cat(&[
        ks("aisAICDcdwfr.ukjxz2;\x1b"),
        vec![Left, Up, Backspace, Char('\t'), Char('\n'), Right, End],
        ctrl("rfl["),
    ]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("vi keys", cfgs, k, d, on));
    let cfgs = vec![v("text").status().init("a b").hist(&["ab c", "b"])];
    let k = toks(&["a", "i", "\x1b", "cw", "c\x1b", "cfz", "d\x1b", "dd", "cc", ".", "2.", "k", "j", "r\x1b", "rx", "s", "S", "u", "A", "x", "3", "cx", "cgx"]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("vi commands", cfgs, k, d, on));
    // the prompt is replaced
    let cfgs = vec![Cfg { status_normal: true, ..v("text").status().init("a b").hist(&["ab c", "b"]) }, v("without").init("a").hist(&["ab"])];
    let k = cat(&[ks("aicdwr.ukx2\x1b"), vec![F(10), F(11), F(12), Up, Char('\t'), Char('\n')], ctrl("rl")]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("other prompts", cfgs, k, d, on));
}

pub fn c24(ex: &mut Explorer) {
    let mut cfgs = vec![];
    for h in histories(&["a b", "c", "", "d  éf ", "g\\ h"], 3) {
        cfgs.push(e("every history").hist(&h).init("x y").pre(&[Left]));
        cfgs.push(e("every history").hist(&h).pre(&[Up]));
    }
    let k = cat(&[vec![Char('z'), Up, Down, Left], ctrl("xl"), alt(".<>r")]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("every history", cfgs, k, d, T));
    let h = ["one", "a b", "a b", " ", "x\ty z\nw", "é 世", "a\\ b"];
    let cfgs = vec![
        e("plain").hist(&h),
        e("text").hist(&h).init("ab cd").pre(&[Left, Left]),
        e("candidates").hist(&h).init("a").cands(&["ab", "ac"]),
        e("entry").hist(&h).pre(&[Up, Up, Left]),
    ];
    let k = cat(&[
        vec![Char('a'), Char(' '), Up, Down, Left, Right, Home, Backspace, Delete, Char('\t'), Char('\n'), Esc],
        ctrl("xlrfkwu"),
        alt("..<>bfr\x7f"),
    ]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("all keys", cfgs, k, d, T));
    // words of all kinds of characters
    let mut odd: Vec<String> = vec![];
    for c in ['#', '-', '"', '\'', '/', '.', '~', '$', '_', '9', 'A', '(', '|', ';', '\t', '\n', '\\', '\u{a0}', '\u{301}', '世', 'ß', '\r', '\0'] {
        odd.extend([format!("x {}", c), format!("x {}b", c), format!("x b{}", c), format!("x b{} ", c), format!("{} ", c), format!("x b {}{}", c, c)]);
    }
    let cfgs = odd.iter().flat_map(|o| [e("odd").hist(&["x", o]).init("y z").pre(&[Left]), e("odd").hist(&[o, "a b"]).pre(&[Up])]).collect();
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("odd words", cfgs, cat(&[vec![Alt('.'), Up, Char('a'), Left, Ctrl('x')]]), d, T));
    let k = cat(&[vec![Alt('.'), Char('a'), Up, Left, Backspace]]);
    let cfgs = vec![e("plain").hist(&h), e("text").hist(&h).init("ab").pre(&[Left])];
    let d = ex.pick(8, 10);
    ex.explore(&Lock::new("long", cfgs, k, d, T));
}

pub fn c26(ex: &mut Explorer) {
    let on = COLOURS;
    let hist = ["aé b", "世世a", "ab\ncd", "a\n\nb世", "abcdefgh", "\nx"];
    let mut cfgs = vec![];
    for w in [80usize, 3, 4, 5, 6, 9] {
        for colour in [false, true] {
            for c in [e("new line").hist(&hist).width(w), e("text").hist(&hist).width(w).prompt("\x1b[32mup\x1b[0m\n\x1b[1m>\x1b[0m").init("ab\nc")] {
                cfgs.push(if colour { c.colour() } else { c });
            }
        }
    }
    let k = cat(&[vec![Char('a'), Char('b'), Char('\n'), Char('\\'), Left, Home, Up, Down, Backspace], ctrl("rfx")]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("suggestions and colours", cfgs.clone(), k, d, on));
    // lists
    let lists: [&[&str]; 3] = [&["ab", "ac"], &["世a", "b c", "bcd", "abcdefghij", "世é"], &["a", "b", "c", "d", "e", "f"]];
    let mut cfgs = vec![];
    for l in lists {
        for w in [80, 5, 7, 12] {
            let c = e("list").cands(l).width(w).hist(&["ab cd", "bcd\ne"]);
            cfgs.push(c.clone());
            cfgs.push(c.init("x ").colour());
        }
    }
    let k = cat(&[vec![Char('\t'), Char('a'), Char('b'), Left, Backspace, Char('\n')], ctrl("ru")]);
    let d = ex.pick(5, 6);
    ex.explore(&Lock::new("lists", cfgs, k, d, on));
    // vi
    let cfgs = vec![
        v("vi").status().hist(&hist).colour(),
        v("vi").hist(&hist).width(5),
        v("vi").status().hist(&hist).init("ab\nc").width(7).colour(),
    ];
    let k = cat(&[ks("aix\x1bcdwuk0$A世"), vec![Backspace, Up, Left], ctrl("rf")]);
    let d = ex.pick(4, 5);
    ex.explore(&Lock::new("vi", cfgs, k, d, on));
}
