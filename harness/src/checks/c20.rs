//! C20: terminal failures surface as errors and leave the history intact.
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use liner::{ColorClosure, EditorContext, Prompt, ViStatus};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::io::ErrorKind;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    vi: bool,
    width: usize,
    hist: Vec<String>,
    words: Vec<String>,
    prompt: String,
    init: String,
    keys: Vec<K>,
    /// what is read afterwards
    again: Vec<K>,
    kind: u8,
    sticky: bool,
    short: Option<usize>,
    /// which operations fail, one per run, in thousandths of all
    at: Vec<u16>,
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::BrokenPipe,
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidInput,
    ErrorKind::Interrupted,
];

fn gen() -> impl Strategy<Value = Case> {
    any::<bool>().prop_flat_map(|vi| {
        (
            (select(&[0usize, 2, 5, 11, 20, 80][..]), prop_oneof![3 => select(&["", "$ ", "l1\nl2> ", "é> "][..]).prop_map(str::to_owned), 1 => any_prompt(true)]),
            history(4, true),
            vec(line(5), 0..4),
            prop_oneof![2 => Just(String::new()), 1 => text(14)],
            keys_for(vi, 7),
            keys_for(vi, 4),
            (any::<u8>(), any::<bool>(), prop_oneof![3 => Just(None), 1 => (1usize..5).prop_map(Some)]),
            vec(0u16..1000, 1..6),
        )
            .prop_map(move |((width, prompt), hist, words, init, keys, again, (kind, sticky, short), at)| Case {
                vi,
                width,
                hist,
                words,
                prompt,
                init,
                keys,
                again,
                kind,
                sticky,
                short,
                at,
            })
    })
}

type Outcome = Result<String, (ErrorKind, String)>;

fn read(c: &mut Ctx, case: &Case, init: &str, keys: &[K]) -> (Outcome, Vec<u8>) {
    c.terminal.keys = keys.iter().map(|k| k.0).collect();
    let out = c.terminal.out.len();
    let mut comp = RecComp { words: case.words.clone(), ..Default::default() };
    let hl: Option<ColorClosure> = if case.kind & 8 == 8 { Some(Box::new(|s: &str| s.to_owned())) } else { None };
    let p = Prompt {
        prompt: case.prompt.clone(),
        vi_status: if case.vi { Some(ViStatus::default()) } else { None },
    };
    let r = (&mut *c).read_line_with_init_buffer(p, &mut comp, hl, init);
    (r.map_err(|e| (e.kind(), e.to_string())), c.terminal.out[out..].to_vec())
}

fn check(case: &Case, obs: &mut Obs) -> Res {
    let fresh = || {
        let mut c = ctx(case.width, &case.hist, case.vi);
        c.terminal.log_ops = true;
        c
    };
    let any_kind = KINDS[case.kind as usize % KINDS.len()];
    let desc = format!(
        "width {}, prompt {:?}, history {:?}, {:?} {}",
        case.width,
        case.prompt,
        case.hist,
        case.init,
        show(&case.keys)
    );
    // without failures
    let mut c = fresh();
    let good = read(&mut c, case, &case.init, &case.keys);
    let ops = c.terminal.op_log.borrow().clone();
    let mut c = fresh();
    let again = read(&mut c, case, "", &case.again);
    if let Some(n) = case.short {
        // a terminal that takes few bytes at a time gets them all
        let mut c = fresh();
        c.terminal.short = Some(n);
        if read(&mut c, case, &case.init, &case.keys) != good {
            return Err(format!("{desc}: short writes change the result or the output"));
        }
        obs.label("short writes");
    }
    let first_width = ops.iter().position(|o| *o == Op::Width);
    let mut failures = 0;
    for a in &case.at {
        let n = *a as usize * ops.len() / 1000;
        // an interrupted write is to be tried again, so only other operations are interrupted
        let kind = match any_kind {
            ErrorKind::Interrupted if case.sticky || matches!(ops.get(n), None | Some(Op::Write)) => ErrorKind::Other,
            k => k,
        };
        let mut c = fresh();
        c.terminal.fault = Some((n as u64, kind, case.sticky));
        let (r, _) = read(&mut c, case, &case.init, &case.keys);
        let log = c.terminal.op_log.borrow().clone();
        let what = log.get(n).copied();
        let at = |e: String| format!("{desc}: operation {n} ({what:?}) fails with {kind:?}{}: {e}", if case.sticky { ", as all after it" } else { "" });
        if log.get(..=n) != ops.get(..=n) {
            return Err(at("the operations before differ from those without a failure".into()));
        }
        if Some(n) == first_width && !case.sticky {
            // only used to tell whether the line is empty
            if r != good.0 {
                return Err(at(format!("gives {r:?} instead of {:?}", good.0)));
            }
            obs.label("first width query");
        } else {
            match &r {
                Err((k, m)) if *k == kind && m == "injected" => {}
                r => return Err(at(format!("gives {r:?}"))),
            }
            if log[n + 1..].contains(&Op::Key) && Some(n) != first_width {
                return Err(at("reads another key".into()));
            }
            failures += 1;
            obs.label(&format!("{:?}", what.unwrap()));
        }
        if hist_vec(&c.history) != case.hist {
            return Err(at(format!("the history becomes {:?}", hist_vec(&c.history))));
        }
        c.terminal.fault = None;
        let after = read(&mut c, case, "", &case.again);
        if after != again {
            return Err(at(format!("then reading {} gives {:?} instead of {:?}, or prints something else", show(&case.again), after.0, again.0)));
        }
    }
    obs.nontrivial = failures > 0 && case.keys.len() > 2;
    obs.labels_add("failures injected", failures);
    Ok(())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![suite(
        "faults",
        "a session whose n-th terminal operation (write, flush, key read or width query, once or from then on) fails, for several n, then another read; non-trivial: a failure in a session of 3+ keys",
        210_000,
        3_000_000,
        gen,
        check,
    )]
}
