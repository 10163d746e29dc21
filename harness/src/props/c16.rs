use super::*;
use crate::run::*;

/// args: a number, a count.
fn check(c: &Case) -> Result<(), String> {
    let n = c.u64(0) as i64 as i32;
    let made = std::panic::catch_unwind(|| Ref::new(n).get());
    match made {
        Ok(v) if n > 0 && v == n => {}
        Err(_) if n <= 0 => return Ok(()),
        Ok(v) => return Err(format!("Ref::new({n}) is a reference to {v}")),
        Err(_) => return Err(format!("Ref::new({n}) panicked")),
    }
    let r = Ref::new(n);
    everywhere(r, |o| *o == Obj::Ref(n as i64, 0), &format!("reference {n}"))?;
    let k = (c.u64(1) % 50) as i32;
    let mut run = r;
    for i in 0..k {
        if n.checked_add(i + 1).is_none() {
            break;
        }
        let next = run.next();
        if next.get() != n + i + 1 || run.get() != n + i {
            return Err(format!("next of {} is {}", n + i, next.get()));
        }
        let got = run.bump();
        if got.get() != n + i || run.get() != n + i + 1 {
            return Err(format!("bump of {} gave {} and left {}", n + i, got.get(), run.get()));
        }
    }
    // Past the last number there is none.
    let last = std::panic::catch_unwind(|| Ref::new(i32::MAX).next().get());
    if last.is_ok() {
        return Err("a reference after the largest number".into());
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        listed: |ctx| {
            let mut v = vec![];
            for i in -300i64..70000 {
                v.push(Case::new("number", vec![num(i as u64), num(3)]));
            }
            for s in 0..31 {
                for d in -2i64..3 {
                    v.push(Case::new("number", vec![num(((1i64 << s) + d) as u64), num(5)]));
                    v.push(Case::new("number", vec![num((-(1i64 << s) + d) as u64), num(5)]));
                }
            }
            for d in 0..60i64 {
                v.push(Case::new("number", vec![num((i32::MAX as i64 - d) as u64), num(49)]));
                v.push(Case::new("number", vec![num((i32::MIN as i64 + d) as u64), num(49)]));
            }
            for i in &ctx.dict.ints {
                if (*i as i32) as i64 == *i {
                    v.push(Case::new("number", vec![num(*i as u64), num(49)]));
                }
            }
            v
        },
        random: |ctx, r| Case::new("number", vec![num(ctx.dict.i32(r) as i64 as u64), num(r.next())]),
        n: (1_600_000, 8_000_000),
        check,
        rule: "a number and how often to allocate from it; non-trivial if positive",
        nontrivial: |c| c.u64(0) as i64 > 0,
        sweep: None,
    }
}
