//! C01: no key sequence panics or drives the cursor out of the text.
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use liner::{Buffer, ColorClosure, Editor, Emacs, KeyMap, Prompt, Vi, ViStatus};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    vi: bool,
    hist: Vec<String>,
    words: Vec<String>,
    filter: bool,
    init: String,
    prompt: String,
    divider: u8,
    hl: bool,
    width: usize,
    keys: Vec<K>,
}

fn prompt_text() -> impl Strategy<Value = String> + Clone {
    let odd = "[\\x1b\\x07\\[\\](;m0-9a-z中\n]{0,12}";
    let fixed = select(
        &[
            "", "$ ", "> ", "prompt$ ", "é> ", "中文> ", "l1\nl2> ", "\n", "x\n",
            "\x1b[31mred\x1b[0m$ ", "\x1b]0;t\x07$ ", "a long prompt that is wider than narrow terminals> ",
        ][..],
    )
    .prop_map(|s| s.to_string());
    prop_oneof![4 => fixed, 1 => any_prompt(true), 1 => odd]
}

fn width() -> impl Strategy<Value = usize> + Clone {
    prop_oneof![1 => Just(1usize), 1 => Just(2), 2 => 3usize..12, 3 => 12usize..40, 3 => Just(80), 1 => 40usize..200, 1 => Just(0)]
}

fn gen(vi: bool, max: usize) -> impl Strategy<Value = Case> {
    (
        history(6, true),
        proptest::collection::vec(prop_oneof![line(6), text(9)], 0..4),
        any::<bool>(),
        prop_oneof![3 => Just(String::new()), 2 => text(12)],
        prompt_text(),
        0u8..3,
        any::<bool>(),
        width(),
        keys_for(vi, max),
    )
        .prop_map(move |(hist, words, filter, init, prompt, divider, hl, width, keys)| Case {
            vi,
            hist,
            words,
            filter,
            init,
            prompt,
            divider,
            hl,
            width,
            keys,
        })
}

/// Every maximal run of non-blanks is a word / every character is a word / nothing is a word.
pub fn divider(n: u8) -> Box<dyn Fn(&Buffer) -> Vec<(usize, usize)>> {
    match n {
        1 => Box::new(|b| (0..b.num_chars()).map(|i| (i, i + 1)).collect()),
        2 => Box::new(|b| {
            let cs: Vec<char> = b.chars().cloned().collect();
            let mut v = vec![];
            let mut i = 0;
            while i < cs.len() {
                if cs[i].is_whitespace() {
                    i += 1;
                    continue;
                }
                let s = i;
                while i < cs.len() && !cs[i].is_whitespace() {
                    i += 1
                }
                v.push((s, i));
            }
            v
        }),
        _ => Box::new(liner::get_buffer_words),
    }
}

fn run<M: KeyMap>(case: &Case, obs: &mut Obs) -> Res {
    let mut c = ctx(case.width, &case.hist, case.vi);
    c.word_divider_fn = divider(case.divider);
    let mut comp = RecComp {
        words: case.words.clone(),
        filter: case.filter,
        ..Default::default()
    };
    let mut i = 0;
    let mut first = true;
    while first || i < case.keys.len() {
        let hl: Option<ColorClosure> = if case.hl {
            Some(Box::new(|s: &str| format!("\x1b[32m{s}\x1b[0m")))
        } else {
            None
        };
        let prompt = Prompt {
            prompt: case.prompt.clone(),
            vi_status: if case.vi { Some(ViStatus::default()) } else { None },
        };
        let init = if first { case.init.as_str() } else { "" };
        first = false;
        let mut ed = Editor::new_with_init_buffer(prompt, hl, &mut c, init)
            .map_err(|e| format!("starting a session failed: {e}"))?;
        let mut m = M::default();
        m.init(&mut ed).map_err(|e| format!("init failed: {e}"))?;
        let mut entered = None;
        while i < case.keys.len() {
            let k = case.keys[i].0;
            let before = ed.current_buffer().num_chars();
            let f0 = ed.context().terminal.flushes;
            i += 1;
            // a budget for each key
            let t = &mut ed.context_mut().terminal;
            t.written = 0;
            t.out.clear();
            LONGEST.with(|l| l.set(l.get().max(before)));
            let r = m.handle_key(k, &mut ed, &mut comp);
            let len = ed.current_buffer().num_chars();
            let at = || format!("after {}", show(&case.keys[..i]));
            if ed.cursor() > len {
                return Err(format!("{}: cursor {} beyond text of {len}", at(), ed.cursor()));
            }
            if ed.no_eol && len > 0 && ed.cursor() >= len && !matches!(r, Ok(true) | Err(_)) {
                return Err(format!("{}: cursor {} not on a character of {len} in normal mode", at(), ed.cursor()));
            }
            let work = ed.context().terminal.flushes - f0;
            let bound = 400 + 30 * (before + len + case.hist.len()) as u64;
            if work > bound * 14 {
                return Err(format!("{}: {work} redraws for one key (text {before} -> {len})", at()));
            }
            match r {
                Ok(true) => {
                    entered = Some(String::from(ed));
                    break;
                }
                Ok(false) => {}
                Err(e) => match e.kind() {
                    std::io::ErrorKind::Interrupted | std::io::ErrorKind::UnexpectedEof => {
                        obs.label("ended by ctrl-c/ctrl-d");
                        break;
                    }
                    _ => return Err(format!("{}: error {e}", at())),
                },
            }
        }
        if let Some(l) = entered {
            obs.label("entered");
            let _ = c.history.push(Buffer::from(l));
        }
    }
    let ks = &case.keys;
    obs.nontrivial = ks.len() >= 4;
    obs.label_if(case.hist.len() > 1, "history of 2+");
    obs.label_if(case.width < 12, "narrow terminal");
    obs.label_if(ks.contains(&ctrl('r')) || ks.contains(&ctrl('s')), "searches");
    obs.label_if(ks.contains(&K(Key::Char('\t'))) && !case.words.is_empty(), "completes");
    obs.label_if(ks.len() > 20, "20+ keys");
    obs.labels_add("keys", ks.len() as u64);
    Ok(())
}

/// A bound of the count the keys can amount to (2d3w multiplies to less than 23).
fn count_bound(keys: &[K]) -> f64 {
    let digits: String = keys
        .iter()
        .filter_map(|k| match k.0 {
            Key::Char(c) if c.is_ascii_digit() => Some(c),
            _ => None,
        })
        .collect();
    digits.parse().unwrap_or(0.0)
}

thread_local! {
    /// The longest text so far.
    static LONGEST: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

fn check(case: &Case, obs: &mut Obs) -> Res {
    let given = case.hist.iter().chain(&case.words).chain([&case.init, &case.prompt]);
    LONGEST.with(|l| l.set(given.map(|s| s.chars().count()).max().unwrap_or(0)));
    let r = guarded(|| {
        if case.vi {
            run::<Vi>(case, obs)
        } else {
            run::<Emacs>(case, obs)
        }
    });
    match r {
        // A long text, perhaps of many lines, each indented by a long search prompt, or one repeated
        // by a huge count is legitimately redrawn at length.
        Err(e) if e.contains(TOO_MUCH) => {
            if count_bound(&case.keys) > 300.0 || LONGEST.with(|l| l.get()) > 150 {
                obs.label("much output");
                return Ok(());
            }
            Err("draws megabytes for one key and a short text".into())
        }
        Err(e) => Err(e),
        Ok(r) => r,
    }
}

// ------------------------------------------------------------------ a file that changes

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shared {
    vi: bool,
    load_dup: bool,
    start: Vec<String>,
    /// what the file becomes at each F12
    files: Vec<Vec<String>>,
    keys: Vec<K>,
}

fn run_shared<M: KeyMap>(case: &Shared, obs: &mut Obs) -> Res {
    let sc = Scratch::new();
    let path = sc.path("h");
    let write = |ls: &[String]| std::fs::write(&path, ls.iter().map(|l| format!("{l}\n")).collect::<String>()).map_err(|e| format!("harness: {e}"));
    write(&case.start)?;
    let mut c = ctx(80, &[], case.vi);
    c.history.inc_append = true;
    c.history.share = true;
    c.history.load_duplicates = case.load_dup;
    c.history.set_file_name_and_load_history(&path).map_err(|e| format!("loading: {e}"))?;
    let mut d: Drv<M> = Drv::new(&mut c, Prompt::from("$ "), "")?;
    let (mut n, mut on_entry) = (0, 0);
    for (i, &k) in case.keys.iter().enumerate() {
        if k.0 == Key::F(12) {
            write(&case.files[n % case.files.len()])?;
            on_entry += u32::from(d.ed.current_history_location().is_some());
            n += 1;
            continue;
        }
        let r = d.m.handle_key(k.0, &mut d.ed, &mut d.comp);
        let len = d.ed.current_buffer().num_chars();
        if d.cursor() > len {
            return Err(format!("after {}: cursor {} beyond text of {len}", show(&case.keys[..=i]), d.cursor()));
        }
        if d.ed.current_history_location().map_or(false, |l| l >= d.ed.context().history.len()) {
            return Err(format!("after {}: on an entry that does not exist", show(&case.keys[..=i])));
        }
        if !matches!(r, Ok(false)) {
            break;
        }
    }
    obs.nontrivial = n > 0 && case.keys.len() > n + 3;
    obs.label_if(on_entry > 0, "file changed while on an entry");
    Ok(())
}

fn check_shared(case: &Shared, obs: &mut Obs) -> Res {
    guarded(|| if case.vi { run_shared::<Vi>(case, obs) } else { run_shared::<Emacs>(case, obs) })?
}

fn gen_shared() -> impl Strategy<Value = Shared> {
    any::<bool>().prop_flat_map(|vi| {
        let s = if vi { vi_seg() } else { emacs_seg() };
        let f = || proptest::collection::vec(select(&["a", "ab", "abc", "b", "ba", "é", "x y"][..]).prop_map(|s| s.to_string()), 0..6);
        let seg = prop_oneof![
            2 => s,
            3 => Just(vec![K(Key::F(12))]),
            3 => (1usize..4).prop_map(|n| vec![K(Key::Up); n]),
            2 => (1usize..3).prop_map(|n| vec![K(Key::Down); n]),
            2 => select(&['a', 'b', 'é'][..]).prop_map(|c| vec![ch(c)]),
            2 => Just(vec![ch('\\'), K(Key::Char('\n'))]),
            1 => Just(vec![ch('\\'), K(Key::Char('\n')), K(Key::F(12)), K(Key::Up)]),
            1 => Just(vec![ctrl('r')]),
            1 => Just(vec![ctrl('s')]),
            1 => Just(vec![alt('.')]),
            // on an entry that matches while the file changes
            1 => (select(&['a', 'b'][..]), 1usize..4, 1usize..4).prop_map(|(c, n, m)| {
                [vec![K(Key::End), ch(c)], vec![K(Key::Up); n], vec![ch('\\'), K(Key::Char('\n')), K(Key::F(12))], vec![K(Key::Up); m]].concat()
            }),
        ];
        // a file that is new, or one that lost its end
        let change = prop_oneof![1 => f().prop_map(Ok), 1 => (0usize..6).prop_map(Err)];
        (any::<bool>(), f(), proptest::collection::vec(change, 1..4), seq(seg, 2..14)).prop_map(move |(load_dup, start, files, k)| Shared {
            vi,
            load_dup,
            files: files.into_iter().map(|x| x.unwrap_or_else(|n| start[..n.min(start.len())].to_vec())).collect(),
            start,
            keys: flat(k).into_iter().filter(|k| !matches!(k.0, Key::Ctrl('c') | Key::Ctrl('d'))).collect(),
        })
    })
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "emacs",
            "a whole configuration (history, completer, divider, prompt, width, highlighter) and an Emacs key sequence run through handle_key; non-trivial: at least 4 keys",
            360_000,
            3_000_000,
            || gen(false, 14),
            check,
        ),
        suite(
            "vi",
            "the same with Vi key sequences (segments: counted motions, operators with motions, inserts, repeats, undo, common keys); non-trivial: at least 4 keys",
            480_000,
            4_000_000,
            || gen(true, 12),
            check,
        ),
        suite(
            "shared",
            "keys of both bindings while the file of a shared history is rewritten in between; non-trivial: it was, and at least 4 keys",
            120_000,
            1_500_000,
            gen_shared,
            check_shared,
        ),
    ]
}
