//! C21: editing never alters the stored history.
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use liner::{EditorContext, Emacs, KeyMap, Prompt, Vi};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    vi: bool,
    hist: Vec<String>,
    words: Vec<String>,
    init: String,
    /// entries pushed by the user between reads
    keys: Vec<Vec<K>>,
    stepwise: bool,
}

/// Like `keys_for`, but mostly on history entries.
fn keys(vi: bool, max: usize) -> BoxedStrategy<Vec<K>> {
    let nav = prop_oneof![4 => Just(vec![K(Key::Up)]), 2 => Just(vec![K(Key::Down)]), 1 => Just(vec![K(Key::Up), K(Key::Up)])];
    let seg = if vi {
        prop_oneof![
            3 => vi_seg(),
            2 => nav,
            1 => Just(vec![K(Key::Esc), ch('k')]),
            1 => Just(vec![K(Key::Esc), ch('u'), ch('u')]),
            1 => Just(vec![K(Key::Esc), ch('.')]),
        ]
        .boxed()
    } else {
        prop_oneof![3 => emacs_seg(), 2 => nav, 1 => Just(vec![ctrl('x'), ctrl('x')]), 1 => Just(vec![alt('<')]), 1 => Just(vec![alt('r')])].boxed()
    };
    vec(seg, 0..=max).prop_map(flat).boxed()
}

fn gen() -> impl Strategy<Value = Case> {
    any::<bool>().prop_flat_map(|vi| {
        (
            vec(entry(true), 1..7),
            vec(line(5), 0..3),
            prop_oneof![3 => Just(String::new()), 1 => text(8)],
            vec(keys(vi, 10), 1..3),
            any::<bool>(),
        )
            .prop_map(move |(hist, words, init, keys, stepwise)| Case { vi, hist, words, init, keys, stepwise })
    })
}

fn steps<M: KeyMap>(case: &Case, c: &mut Ctx, ks: &[K], obs: &mut Obs) -> Result<u32, String> {
    let hist = &case.hist;
    let mut d: Drv<M> = Drv::new(c, Prompt::from("$ "), &case.init)?;
    d.comp.words = case.words.clone();
    let mut edits = 0;
    for (i, &k) in ks.iter().enumerate() {
        let at = |e: String| format!("{hist:?} {:?} {}: {e}", case.init, show(&ks[..=i]));
        let loc = d.ed.current_history_location();
        let before = d.text();
        let r = d.m.handle_key(k.0, &mut d.ed, &mut d.comp);
        let now = d.ed.current_history_location();
        if hist_vec(d.ed.context().history()) != *hist {
            return Err(at(format!("the history becomes {:?}", hist_vec(d.ed.context().history()))));
        }
        let moves = matches!(k.0, Key::Up | Key::Down | Key::Ctrl('p') | Key::Ctrl('n') | Key::Alt('<') | Key::Alt('>'));
        if let Some(j) = now.filter(|_| moves && now != loc) {
            if d.text() != hist[j] {
                return Err(at(format!("arriving at entry {j} shows {:?}", d.text())));
            }
            obs.label("arrivals");
        }
        if now.is_some() && now == loc && d.text() != before {
            edits += 1;
        }
        if !matches!(r, Ok(false)) {
            break;
        }
    }
    Ok(edits)
}

fn check(case: &Case, obs: &mut Obs) -> Res {
    let mut c = ctx(80, &case.hist, case.vi);
    let mut edits = 0;
    for ks in &case.keys {
        if case.stepwise {
            edits += if case.vi {
                steps::<Vi>(case, &mut c, ks, obs)?
            } else {
                steps::<Emacs>(case, &mut c, ks, obs)?
            };
        } else {
            c.terminal.keys = ks.iter().map(|k| k.0).collect();
            let mut comp = RecComp { words: case.words.clone(), ..Default::default() };
            let _ = (&mut c).read_line_with_init_buffer(Prompt::from("$ "), &mut comp, None, case.init.as_str());
            edits += u32::from(ks.len() > 3);
        }
        if hist_vec(&c.history) != case.hist {
            return Err(format!(
                "{:?} {:?} {}: the history becomes {:?}",
                case.hist,
                case.init,
                show(ks),
                hist_vec(&c.history)
            ));
        }
    }
    // nor is anything left that an undo would bring back
    for (b, h) in c.history.buffers.iter().zip(&case.hist) {
        if undo_texts(b) != undo_texts(&stored(h)) {
            return Err(format!("{:?}: undo and redo in the stored entry {h:?} give {:?}", case.keys, undo_texts(b)));
        }
    }
    obs.nontrivial = edits > 0;
    obs.label_if(edits > 2, "3+ edits of entries");
    Ok(())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![suite(
        "history",
        "a history and reads of both bindings that mostly move among and edit its entries, the history compared after every key (or, through read_line, every read) and the text shown on every arrival; non-trivial: an entry was edited",
        750_000,
        8_000_000,
        gen,
        check,
    )]
}
