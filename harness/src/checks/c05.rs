//! C05: `.` repeats the last change.
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use crate::vimodel::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use termion::event::Key;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    text: String,
    typed: Vec<K>,
    cmds: Vec<Cmd>,
}

fn check(case: &Case, obs: &mut Obs) -> Res {
    let mut c = ctx(80, &[], true);
    let mut r = Run::new(&mut c, &case.text, &case.typed)?;
    let mut dots = 0;
    for cmd in &case.cmds {
        let done = r.cmd(cmd)?;
        dots += u32::from(matches!(cmd, Cmd::Dot(_)) && done);
        if r.m.t.len() > 2000 {
            break;
        }
    }
    obs.nontrivial = dots >= 1;
    for (k, v) in &r.labels {
        obs.labels_add(k, *v);
    }
    Ok(())
}

/// The same keys to two editors; then one gets `.` and the other the command again.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Diff {
    text: String,
    typed: Vec<K>,
    before: Vec<Cmd>,
    change: Cmd,
    between: Vec<Cmd>,
    count: Cnt,
    times: u8,
}

fn all_keys(c: &Cmd) -> Vec<K> {
    let (mut k, t) = c.keys();
    if let Some(t) = t {
        k.extend_from_slice(t);
        k.push(K(Key::Esc));
    }
    k
}

fn check_diff(case: &Diff, obs: &mut Obs) -> Res {
    // counts that are replaced have to be the ones before the command
    let again = match &case.change {
        c if case.count == 0 => c.clone(),
        Cmd::Op(_, o, _, m, t) => Cmd::Op(case.count, *o, 0, m.clone(), t.clone()),
        Cmd::X(_, d) => Cmd::X(case.count, *d),
        Cmd::Replace(_, c) => Cmd::Replace(case.count, *c),
        Cmd::Tilde(_) => Cmd::Tilde(case.count),
        Cmd::Subst(_, t) => Cmd::Subst(case.count, t.clone()),
        Cmd::Ins(_, c, t) => Cmd::Ins(case.count, *c, t.clone()),
        c => c.clone(),
    };
    let (mut ca, mut cb) = (ctx(80, &[], true), ctx(80, &[], true));
    let mut a = Run::new(&mut ca, &case.text, &case.typed)?;
    let mut b = Run::new(&mut cb, &case.text, &case.typed)?;
    let mut ok = false;
    for (i, cmd) in case.before.iter().chain([&case.change]).chain(&case.between).enumerate() {
        let x = a.cmd(cmd)?;
        b.cmd(cmd)?;
        if i == case.before.len() {
            ok = x;
        }
    }
    if !ok || a.m.t.len() > 2000 {
        // not completed, or without any effect
        return Ok(());
    }
    let mut effect = false;
    for n in 0..case.times {
        let t = a.d.chars();
        // the model decides whether what is typed after a change is typed at all
        let mut probe = Probe { find: b.m.find, done: true };
        match &again {
            Cmd::Op(n, _, n2, m, _) => {
                let count = match (n, n2) {
                    (0, b) => *b,
                    (a, 0) => *a,
                    (a, b) => a.saturating_mul(*b),
                };
                probe.done = target(&b.d.chars(), b.d.cursor(), count, m, &mut probe.find).is_some();
            }
            Cmd::Replace(n, _) => probe.done = b.d.chars().len() as u64 >= b.d.cursor() as u64 + n.max(&1),
            _ => {}
        }
        let mut dot: Vec<K> = if case.count > 0 && n == 0 { case.count.to_string().chars().map(ch).collect() } else { vec![] };
        dot.push(ch('.'));
        a.d.keys(&dot)?;
        if probe.done {
            b.d.keys(&all_keys(&again))?;
        } else {
            b.d.keys(&again.keys().0)?;
        }
        b.m.find = probe.find;
        effect |= t != b.d.chars();
        if a.d.chars() != b.d.chars() || a.d.cursor() != b.d.cursor() {
            return Err(format!(
                "{} ({}): . on {:?} gives {:?} at {}, the command again {:?} at {}",
                show(&all_keys(&case.change)),
                show(&dot),
                t.iter().collect::<String>(),
                a.d.text(),
                a.d.cursor(),
                b.d.text(),
                b.d.cursor()
            ));
        }
        if a.d.ed.no_eol != b.d.ed.no_eol {
            return Err(format!("{}: the modes differ after .", show(&all_keys(&case.change))));
        }
        // a count before a . that does nothing is forgotten
        if a.d.chars().len() > 3000 || (!probe.done && case.count > 0) {
            break;
        }
    }
    obs.nontrivial = effect;
    obs.label(&format!("{}{}", case.change.name(), if effect { "" } else { " (no effect)" }));
    obs.label_if(case.count > 0, "count before the dot");
    obs.label_if(!case.between.is_empty(), "commands in between");
    Ok(())
}

/// An insertion that visits the history: what was typed since is what is repeated.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Visit {
    hist: Vec<String>,
    text: String,
    start: Vec<K>,
    before: Vec<K>,
    moves: Vec<K>,
    after: Vec<K>,
    between: Vec<K>,
    times: u8,
}

fn check_visit(case: &Visit, obs: &mut Obs) -> Res {
    let (mut ca, mut cb) = (ctx(80, &case.hist, true), ctx(80, &case.hist, true));
    let mut a: Drv<liner::Vi> = Drv::new(&mut ca, vi_prompt(), &case.text)?;
    let mut b: Drv<liner::Vi> = Drv::new(&mut cb, vi_prompt(), &case.text)?;
    let esc = [K(Key::Esc)];
    for d in [&mut a, &mut b] {
        for ks in [&esc[..], &case.start, &case.before, &case.moves, &case.after, &esc, &case.between] {
            d.keys(ks)?;
        }
    }
    let visited = case.moves.iter().any(|k| matches!(k.0, Key::Up | Key::Down));
    for _ in 0..case.times {
        let t = a.text();
        a.keys(&[ch('.')])?;
        for ks in [&[ch('i')][..], &case.after, &esc] {
            b.keys(ks)?;
        }
        obs.nontrivial |= visited && t != a.text();
        let state = |d: &Drv<liner::Vi>| (d.text(), d.cursor(), d.ed.current_history_location(), d.ed.no_eol);
        if state(&a) != state(&b) {
            return Err(format!(
                "{:?} {:?} <Esc>{}{}{}{}<Esc>{}: . on {t:?} gives {:?}, typing it again {:?}",
                case.hist,
                case.text,
                show(&case.start),
                show(&case.before),
                show(&case.moves),
                show(&case.after),
                show(&case.between),
                state(&a),
                state(&b)
            ));
        }
    }
    obs.label_if(a.ed.current_history_location().is_some(), "repeated in a history entry");
    Ok(())
}

struct Probe {
    find: Option<(char, char)>,
    done: bool,
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "again",
            "a change, motions, undo and invalid commands in between, and one to three dots, against the command typed again on an identical editor; non-trivial: the repetition changed the text",
            900_000,
            10_000_000,
            || {
                let between = prop_oneof![6 => gen_move(), 2 => gen_bad(), 2 => (0u64..3).prop_map(Cmd::Undo)];
                (
                    gen_text(),
                    gen_typed(false),
                    (gen_place(), vec(prop_oneof![3 => gen_move(), 1 => gen_change(false)], 0..3)).prop_map(|(a, b)| [a, b].concat()),
                    gen_change(false),
                    seq_up_to(between, 0..4, 20),
                    prop_oneof![3 => Just(0u64), 1 => 1u64..5],
                    1u8..4,
                )
                    .prop_map(|(text, typed, before, change, between, count, times)| Diff { text, typed, before, change, between, count, times })
            },
            check_diff,
        ),
        suite(
            "model",
            "a sequence of motions, changes (with cursor movements while inserting), dots, undos and invalid commands, compared with the model after each; non-trivial: a dot had an effect",
            600_000,
            6_000_000,
            || {
                (
                    gen_text(),
                    gen_typed(true),
                    vec(
                        prop_oneof![4 => gen_move(), 6 => gen_change(true), 6 => gen_dot(), 1 => gen_bad(), 1 => (0u64..3).prop_map(Cmd::Undo)],
                        2..12,
                    ),
                )
                    .prop_map(|(text, typed, cmds)| Case { text, typed, cmds })
            },
            check,
        ),
        suite(
            "visit",
            "an insertion during which history entries are visited or the cursor is moved, and one to three dots afterwards, against typing what followed the movement again; non-trivial: an entry was visited and the repetition changed the text",
            120_000,
            1_500_000,
            || {
                let hist = vec(select(&["ab cd", "x", "éa b", "a\nb", "long entry here", "ab"][..]).prop_map(|s: &str| s.to_owned()), 0..5);
                let typed = || vec(prop_oneof![5 => tchar().prop_map(ch), 1 => Just(K(Key::Backspace)), 1 => Just(K(Key::Delete))], 0..4);
                let mv = select(&[Key::Up, Key::Up, Key::Up, Key::Down, Key::Left, Key::Home][..]).prop_map(K);
                let start = select(&["i", "a", "I", "A", "3i", "cw", "s", "C", "cc", "kA"][..]).prop_map(|s| s.chars().map(ch).collect());
                let between = vec(select(&['h', 'l', 'w', 'b', '0', '$', 'k', 'j', 'e'][..]).prop_map(ch), 0..3);
                (hist, gen_text(), start, typed(), seq_up_to(mv, 1..5, 12), (tchar().prop_map(ch), typed()).prop_map(|(c, v)| [vec![c], v].concat()), between, 1u8..4)
                    .prop_map(|(hist, text, start, before, moves, after, between, times)| Visit { hist, text, start, before, moves, after, between, times })
            },
            check_visit,
        ),
    ]
}
