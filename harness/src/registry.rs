use crate::{
    abyss, big, churn, deep, green, long, mem, misc, nav,
    rng::Rng,
    runner::Prop,
    text, thr,
    util::{Ctx, R},
    vast, world,
};

/// Special cases: `n` of the first, then one of each that follows.
macro_rules! special {
    ($n:expr, $f:path $(, $b:path)*) => {
        Some(($n $(+ { let _: fn(&mut Ctx, &mut Rng) -> R = $b; 1 })*, |cx, rng, which| {
            if which < $n {
                return $f(cx, rng, which);
            }
            let rest: &[fn(&mut Ctx, &mut Rng) -> R] = &[$($b),*];
            rest[which - $n](cx, rng)
        }))
    };
}

fn none(_: &mut Ctx, _: &mut Rng, _: usize) -> R {
    Ok(())
}

pub static PROPS: &[Prop] = &[
    Prop { id: "C01", special: special!(6, green::c01_special, big::c01, deep::green, abyss::green, vast::green), case: green::c01 },
    Prop { id: "C02", special: special!(5, green::c02_special, big::c02, long::c02, churn::c02), case: green::c02 },
    Prop { id: "C03", special: special!(0, none, big::c03, deep::green, long::c03, abyss::green, churn::c03, vast::green), case: green::c03 },
    Prop { id: "C04", special: special!(0, none, big::c04, deep::c04, abyss::c04, churn::c04, vast::green), case: green::c04 },
    Prop { id: "C05", special: special!(4, nav::c05_special, big::c05, abyss::steps, churn::c05, big::runs_nav, vast::steps), case: nav::c05 },
    Prop { id: "C06", special: special!(4, nav::c06_special, big::c05, abyss::steps, churn::c06, big::runs_nav, vast::steps), case: nav::c06 },
    Prop { id: "C07", special: special!(0, none, big::c07, churn::c07, vast::walks), case: nav::c07 },
    Prop { id: "C08", special: special!(3, nav::c08_special, big::c08, abyss::walks, churn::c08, big::runs_walk, vast::walks), case: nav::c08 },
    Prop { id: "C09", special: special!(3, nav::c09_special, big::c09, abyss::lookups, churn::c09, big::runs_lookups, vast::lookups), case: nav::c09 },
    Prop {
        id: "C10",
        special: special!(3, text::c10_special, big::c10, deep::c10, long::c10, abyss::lookups, churn::c10, big::runs_text, vast::lookups),
        case: text::c10,
    },
    Prop { id: "C11", special: special!(0, none, big::c11, deep::c11, abyss::steps, churn::c11, vast::steps), case: nav::c11 },
    Prop {
        id: "C12",
        special: special!(0, none, big::edits, deep::edits, abyss::edits, churn::edits, big::many_edits, big::crowds, vast::edits),
        case: world::c12,
    },
    Prop {
        id: "C13",
        special: special!(0, none, big::edits, deep::edits, abyss::edits, churn::edits, big::many_edits, big::crowds, vast::edits),
        case: world::c13,
    },
    Prop { id: "C14", special: special!(0, none, big::c14, deep::c14, abyss::edits, churn::edits, big::many_edits, big::crowds), case: world::c14 },
    Prop { id: "C15", special: special!(0, none, big::c15), case: world::c15 },
    Prop { id: "C16", special: Some((mem::C16_SPECIALS, mem::c16_special)), case: mem::c16 },
    Prop { id: "C17", special: Some((11, mem::c17_special)), case: mem::c17 },
    Prop { id: "C18", special: special!(2, thr::c18_special, churn::handover), case: thr::c18 },
    Prop { id: "C19", special: special!(12, misc::c19_special, deep::below_itself), case: misc::c19 },
    Prop { id: "C20", special: special!(3, misc::c20_special, big::c20, deep::c20, abyss::lookups, churn::c20), case: misc::c20 },
    Prop { id: "C21", special: special!(0, none, big::c21, deep::c21, churn::c21), case: misc::c21 },
    Prop { id: "C22", special: special!(2, text::c22_special, big::c22, deep::c22, long::c22, abyss::lookups, churn::c22, big::runs_print), case: text::c22 },
];
