//! C04: Vi change commands against their definitions.
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use crate::vimodel::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    text: String,
    typed: Vec<K>,
    cmds: Vec<Cmd>,
}

fn check(case: &Case, obs: &mut Obs) -> Res {
    let mut c = ctx(80, &[], true);
    let mut r = Run::new(&mut c, &case.text, &case.typed)?;
    let mut changes = 0;
    for cmd in &case.cmds {
        let t = r.m.t.clone();
        r.cmd(cmd)?;
        changes += u32::from(t != r.m.t);
        if r.m.t.len() > 6000 {
            break;
        }
    }
    let (log, end) = (r.d.log.clone(), r.d.text());
    let labels = r.labels;
    read_gives(ctx(80, &[], true), &case.text, &log, &end)?;
    obs.nontrivial = changes >= 1;
    obs.label_if(changes >= 3, "3+ changes");
    for (k, v) in &labels {
        obs.labels_add(k, *v);
    }
    Ok(())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "one",
            "a text, a motion or two and one change command; non-trivial: it changed the text",
            1_200_000,
            12_000_000,
            || {
                (gen_text(), gen_place(), vec(gen_move(), 0..2), prop_oneof![12 => gen_change(true), 1 => gen_bad()]).prop_map(|(text, mut cmds, m, c)| {
                    cmds.extend(m);
                    cmds.push(c);
                    Case { text, typed: vec![], cmds }
                })
            },
            check,
        ),
        suite(
            "sequence",
            "a text, typed text and a sequence of motions, changes and invalid commands; non-trivial: some command changed the text",
            600_000,
            6_000_000,
            || {
                (
                    gen_text(),
                    gen_typed(true),
                    gen_place(),
                    seq_up_to(prop_oneof![4 => gen_move(), 8 => gen_change(true), 1 => gen_bad()], 2..10, 20),
                )
                    .prop_map(|(text, typed, place, cmds)| Case { text, typed, cmds: [place, cmds].concat() })
            },
            check,
        ),
        suite(
            "far",
            "a text of some thousand characters and motions and changes with counts of hundreds and thousands; non-trivial: as before",
            500,
            10_000,
            || gen_far(true).prop_map(|(text, cmds)| Case { text, typed: vec![], cmds }),
            check,
        ),
    ]
}
