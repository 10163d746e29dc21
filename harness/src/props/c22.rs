//! Attributes with a value per side.
use super::*;
use crate::pdf::Obj;
use crate::run::*;
use crate::tree::{same, V};
use pdf_writer::types::{LayoutBorderStyle as B, Sides};
use pdf_writer::writers::LayoutAttributes;

const STYLES: [(B, &str); 10] = [
    (B::None, "None"), (B::Hidden, "Hidden"), (B::Dotted, "Dotted"), (B::Dashed, "Dashed"), (B::Solid, "Solid"),
    (B::Double, "Double"), (B::Groove, "Groove"), (B::Ridge, "Ridge"), (B::Inset, "Inset"), (B::Outset, "Outset"),
];
const NAMES: [&str; 6] = ["BorderThickness", "Padding", "TPadding", "BorderColor", "BorderStyle", "TBorderStyle"];

fn make<T: Clone + PartialEq>(v: [T; 4], how: u64) -> Sides<T> {
    let [a, b, c, d] = v.clone();
    if how % 3 == 2 && a == b && a == c && a == d {
        return Sides::uniform(a);
    }
    if how % 3 == 1 { Sides::from_array(v) } else { Sides::new(a, b, c, d) }
}

/// args: which attribute, how the value is made, then three numbers a side.
fn check(c: &Case) -> Result<(), String> {
    let (k, how) = (c.u64(0) as usize % 6, c.u64(1));
    let f = |i: usize| f32::from_bits(c.u64(2 + i) as u32);
    let nums: [f32; 4] = std::array::from_fn(|i| f(3 * i));
    let colors: [[f32; 3]; 4] = std::array::from_fn(|i| [f(3 * i), f(3 * i + 1), f(3 * i + 2)]);
    let styles: [usize; 4] = std::array::from_fn(|i| c.u64(2 + 3 * i) as usize % STYLES.len());
    if colors.iter().flatten().any(|x| !x.is_finite()) {
        return Ok(());
    }
    let (uniform, each): (bool, Vec<V>) = match k {
        0..=2 => (nums.iter().all(|x| *x == nums[0]), nums.iter().map(|x| V::Real(*x)).collect()),
        3 => (
            colors.iter().all(|x| *x == colors[0]),
            colors.iter().map(|x| V::Arr(x.iter().map(|y| V::Real(*y)).collect())).collect(),
        ),
        _ => (
            styles.iter().all(|x| *x == styles[0]),
            styles.iter().map(|x| V::Name(STYLES[*x].1.as_bytes().to_vec())).collect(),
        ),
    };
    for pretty in [true, false] {
        let mut ch = chunk(pretty);
        {
            let mut w = ch.indirect(Ref::new(7)).start::<LayoutAttributes>();
            let st = make(styles.map(|x| STYLES[x].0), how);
            match k {
                0 => w.border_thickness(make(nums, how)),
                1 => w.padding(make(nums, how)),
                2 => w.table_padding(make(nums, how)),
                3 => w.border_color(make(colors, how)),
                4 => w.border_style(st),
                _ => w.table_border_style(st),
            };
            w.width(1.0);
        }
        let got = pdf::parse_all(ch.as_bytes()).map_err(|e| format!("{e} in `{}`", show_bytes(ch.as_bytes())))?;
        let want = if uniform { each[0].clone() } else { V::Arr(each.clone()) };
        let ok = match got.first().map(|x| &x.3) {
            Some(Obj::Dict(d)) => d.len() == 3 && d[1].0 == NAMES[k].as_bytes() && same(&want, &d[1].1),
            _ => false,
        };
        if !ok {
            return Err(format!("sides {each:?} of {} are written as `{}`", NAMES[k], show_bytes(ch.as_bytes())));
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        listed: |_| {
            let mut v = vec![];
            // Which of three values each side has.
            for k in 0..6u64 {
                for how in 0..3u64 {
                    for p in 0..81usize {
                        let pat = [p % 3, p / 3 % 3, p / 9 % 3, p / 27];
                        for (a, b, d) in [(1.0f32, 2.0f32, 3.5f32), (0.0, -0.0, 1e-7), (1.0, 1.0000001, 1e20), (4.0, 4.0, 5.0)] {
                            for m in 0..3 {
                                let mut args = vec![num(k), num(how)];
                                for s in pat {
                                    for j in 0..3 {
                                        let x = if j == m || m == 2 { [a, b, d][s] } else { 0.5 };
                                        args.push(num(if k < 4 { x.to_bits() as u64 } else { s as u64 * (m as u64 + 1) }));
                                    }
                                }
                                v.push(Case::new("sides", args));
                            }
                        }
                    }
                }
            }
            v
        },
        random: |ctx, r| {
            let vals: Vec<u64> = (0..3).map(|_| ctx.dict.f32(r).to_bits() as u64).collect();
            let mut args = vec![num(r.below(6) as u64), num(r.below(3) as u64)];
            let n = 1 + r.below(3);
            for _ in 0..12 {
                args.push(num(vals[r.below(n)]));
            }
            Case::new("sides", args)
        },
        n: (1_500_000, 4_000_000),
        check,
        rule: "an attribute and three numbers for each of four sides; non-trivial if some sides differ",
        nontrivial: |c| (0..4).any(|i| c.u64(2 + 3 * i) != c.u64(2)),
        sweep: None,
    }
}
