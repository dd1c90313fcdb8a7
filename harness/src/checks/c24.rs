//! C24: how things are displayed never changes what is edited.
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use liner::{ColorClosure, Editor, Emacs, KeyMap, Prompt, Vi, ViPromptMode, ViStatus};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Look {
    width: usize,
    /// the width after every key, if it changes
    widths: Vec<usize>,
    prompt: String,
    status: Option<(String, String)>,
    hl: u8,
    short: Option<usize>,
    /// (key index, prompt) set during the session
    prompts: Vec<(usize, String)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    vi: bool,
    hist: Vec<String>,
    words: Vec<String>,
    init: String,
    keys: Vec<K>,
    looks: [Look; 2],
}

#[derive(Clone, Debug, PartialEq)]
struct State {
    text: String,
    cursor: usize,
    loc: Option<usize>,
    suggesting: bool,
    no_eol: bool,
    asked: usize,
    result: Option<Result<bool, std::io::ErrorKind>>,
}

fn highlighter(n: u8) -> Option<ColorClosure> {
    match n {
        1 => Some(Box::new(|s: &str| format!("\x1b[32m{s}\x1b[0m"))),
        2 => Some(Box::new(|s: &str| s.chars().map(|_| '*').collect())),
        3 => Some(Box::new(|s: &str| s.to_uppercase())),
        _ => None,
    }
}

fn run<M: KeyMap>(case: &Case, look: &Look) -> Result<(Vec<State>, Vec<String>, String, Vec<String>), String> {
    let mut c = ctx(look.width, &case.hist, case.vi);
    c.terminal.short = look.short;
    let prompt = |p: &str| Prompt {
        prompt: p.to_owned(),
        vi_status: look.status.as_ref().map(|(i, n)| ViStatus::new(ViPromptMode::Insert, i.as_str(), n.as_str())),
    };
    let mut states = vec![];
    let (asked, text) = {
        let mut ed = Editor::new_with_init_buffer(prompt(&look.prompt), highlighter(look.hl), &mut c, case.init.as_str()).map_err(|e| e.to_string())?;
        let mut m = M::default();
        m.init(&mut ed).map_err(|e| e.to_string())?;
        let mut comp = RecComp { words: case.words.clone(), filter: true, ..Default::default() };
        for i in 0..=case.keys.len() {
            if let Some(p) = look.prompts.iter().find(|p| p.0 == i) {
                ed.set_prompt(prompt(&p.1));
            }
            let mut result = None;
            if i > 0 {
                let r = m.handle_key(case.keys[i - 1].0, &mut ed, &mut comp);
                result = Some(r.map_err(|e| e.kind()));
            }
            states.push(State {
                text: cur(&ed),
                cursor: ed.cursor(),
                loc: ed.current_history_location(),
                suggesting: ed.is_currently_showing_autosuggestion(),
                no_eol: ed.no_eol,
                asked: comp.asked.len(),
                result: result.clone(),
            });
            if !matches!(result, None | Some(Ok(false))) {
                break;
            }
            if let Some(w) = look.widths.get(i) {
                ed.context_mut().terminal.width = *w;
            }
        }
        (comp.asked, String::from(ed))
    };
    Ok((states, asked, text, hist_vec(&c.history)))
}

fn check(case: &Case, obs: &mut Obs) -> Res {
    let go = |l: &Look| if case.vi { run::<Vi>(case, l) } else { run::<Emacs>(case, l) };
    let a = go(&case.looks[0])?;
    let b = go(&case.looks[1])?;
    let head = || format!("history {:?}, words {:?}, {:?} {}", case.hist, case.words, case.init, show(&case.keys));
    for (i, (x, y)) in a.0.iter().zip(&b.0).enumerate() {
        if x != y {
            return Err(format!("{}: after {i} keys {x:?} with one display and {y:?} with the other", head()));
        }
    }
    if a.0.len() != b.0.len() || a.1 != b.1 || a.2 != b.2 || a.3 != b.3 {
        return Err(format!("{}: {:?} with one display and {:?} with the other", head(), (a.0.len(), a.1, a.2, a.3), (b.0.len(), b.1, b.2, b.3)));
    }
    obs.nontrivial = a.0.len() >= 4 && a.0.windows(2).any(|w| w[0].text != w[1].text);
    obs.labels_add("states compared", a.0.len() as u64);
    obs.label_if(a.0.iter().any(|s| s.suggesting), "suggestion");
    obs.label_if(a.0.iter().any(|s| s.loc.is_some()), "entry visited");
    obs.label_if(!a.1.is_empty(), "completion");
    Ok(())
}

fn look() -> impl Strategy<Value = Look> {
    let prompts = &["", "$ ", "中文> ", "l1\nl2> ", "\x1b[31mred\x1b[0m$ ", "\x1b]0;t\x07$ ", "a prompt that is wider than narrow terminals> ", "(search)'ab` (1/1): "];
    let prompt = || prop_oneof![2 => select(&prompts[..]).prop_map(|s| s.to_string()), 1 => any_prompt(true)];
    let status = prop_oneof![
        1 => Just(None),
        1 => Just(Some(("[I] ".to_owned(), "[N] ".to_owned()))),
        1 => Just(Some((String::new(), "\x1b[1m中 a long mode\x1b[m ".to_owned()))),
    ];
    let width = || prop_oneof![1 => Just(0usize), 2 => 2usize..12, 2 => 12usize..40, 2 => Just(80), 1 => Just(500), 1 => big_n(300)];
    (
        width(),
        prop_oneof![2 => Just(vec![]), 1 => vec(width(), 1..8)],
        prompt(),
        status,
        0u8..4,
        prop_oneof![3 => Just(None), 1 => (1usize..8).prop_map(Some)],
        prop_oneof![2 => Just(vec![]), 1 => vec((0usize..10, prompt()), 1..3)],
    )
        .prop_map(|(width, widths, prompt, status, hl, short, prompts)| Look { width, widths, prompt, status, hl, short, prompts })
}

fn gen(vi: bool) -> impl Strategy<Value = Case> {
    let words = vec(select(&["ab", "abc", "a", "b", "foo", "é", "foobar", "a.b", "ab c", "中日"][..]).prop_map(|s| s.to_owned()), 0..5);
    (history(6, true), words, prop_oneof![1 => Just(String::new()), 2 => text(24)], keys_for(vi, 12), look(), look())
        .prop_map(move |(hist, words, init, keys, a, b)| Case { vi, hist, words, init, keys, looks: [a, b] })
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    let rule = "a history, completions, a text, keys and two ways to display them (prompt, mode indicator, width and its changes, highlighter, short writes, prompts set during the session); what is edited must not differ; non-trivial: at least 3 keys and a change of the text";
    vec![suite("emacs", rule, 150_000, 6_000_000, || gen(false), check), suite("vi", rule, 200_000, 6_000_000, || gen(true), check)]
}
