//! C03: Vi motions against their definitions.
use crate::infra::*;
use crate::keys::*;
use crate::sess::*;
use crate::vimodel::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    text: String,
    typed: Vec<K>,
    cmds: Vec<Cmd>,
}

fn check(case: &Case, obs: &mut Obs) -> Res {
    let mut c = ctx(80, &[], true);
    let mut r = Run::new(&mut c, &case.text, &case.typed)?;
    let mut moved = 0;
    for cmd in &case.cmds {
        moved += u32::from(r.cmd(cmd)?);
    }
    obs.nontrivial = moved >= 2;
    for (k, v) in &r.labels {
        obs.labels_add(k, *v);
    }
    Ok(())
}

/// A wide range of characters, to compare the classes of the definition with the editor's.
fn wild() -> impl Strategy<Value = String> {
    vec(
        prop_oneof![3 => tchar(), 1 => any::<char>().prop_filter("printable", |c| !c.is_control()),
            1 => proptest::sample::select(&['\u{a0}', '\u{3000}', '\u{2003}', '٣', '²', 'Ⅷ', 'ª', '\u{200b}', '—', '„', '\n', '\t'][..])],
        0..18,
    )
    .prop_map(|v| v.into_iter().collect())
}

pub fn suites() -> Vec<Box<dyn DynSuite>> {
    vec![
        suite(
            "motions",
            "a text and a sequence of counted motions, compared with the definitions after each; non-trivial: at least two of them moved the cursor",
            1_200_000,
            12_000_000,
            || {
                (gen_text(), gen_typed(true), gen_place(), seq(prop_oneof![9 => gen_move(), 1 => gen_bad()], 1..12))
                    .prop_map(|(text, typed, place, cmds)| Case { text, typed, cmds: [place, cmds].concat() })
            },
            check,
        ),
        suite(
            "finds",
            "a text of few different characters and f F t T ; , with small counts; non-trivial: as before",
            450_000,
            4_000_000,
            || {
                let m = prop_oneof![
                    2 => (proptest::sample::select(&['f', 'F', 't', 'T'][..]), proptest::sample::select(FEW)).prop_map(|(k, c)| Mot::Find(k, c)),
                    3 => any::<bool>().prop_map(Mot::Again),
                ];
                let c = (prop_oneof![4 => Just(0u64), 1 => 1u64..4], m).prop_map(|(n, m)| Cmd::Move(n, m));
                (vec(proptest::sample::select(FEW), 1..24), gen_place(), seq(c, 1..10))
                    .prop_map(|(t, place, cmds)| Case { text: t.into_iter().collect(), typed: vec![], cmds: [place, cmds].concat() })
            },
            check,
        ),
        suite(
            "classes",
            "the same on texts over all of Unicode, with uncommon blanks, digits and letters; non-trivial: as before",
            360_000,
            3_000_000,
            || {
                (wild(), gen_place(), seq(gen_move(), 1..12)).prop_map(|(text, place, cmds)| Case { text, typed: vec![], cmds: [place, cmds].concat() })
            },
            check,
        ),
        suite(
            "far",
            "a text of some thousand characters and counted motions with counts of hundreds and thousands; non-trivial: as before",
            12_000,
            200_000,
            || gen_far(false).prop_map(|(text, cmds)| Case { text, typed: vec![], cmds }),
            check,
        ),
    ]
}
