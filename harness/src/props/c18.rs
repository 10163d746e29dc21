use super::*;
use crate::run::*;

/// The cases of C19 that write enumerations and flags.
pub fn prop() -> Prop {
    Prop {
        id: "C18",
        listed: |_| [c19::enums(), c13::enums()].concat(),
        random: |_, r| {
            let (w, k, n, flags, list, before) = *r.pick(super::gen::ENUM_ARMS);
            let i = c19::root(w);
            let mut p = if super::gen::ROOTS[i as usize].stream { vec![0] } else { vec![] };
            p.extend([1, k as u8]);
            p.extend(vec![0; 2 * before]);
            if !flags && !list {
                let m = r.below(6);
                p.push(m as u8);
                p.extend(r.bytes(m));
            } else {
                p.push(r.next() as u8);
            }
            for _ in 0..8 {
                p.push(r.below(n as usize) as u8);
            }
            Case::new("writer", vec![num(i), p])
        },
        n: (1_500_000, 5_000_000),
        check: c19::check,
        rule: "every value of every enumeration and flag through every setter that takes it, and random combinations of flags",
        nontrivial: |_| true,
        sweep: None,
    }
}
