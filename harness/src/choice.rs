//! Stateless exploration of environment choices: every answer of the environment (random numbers,
//! user-supplied modes, scheduling) is a choice; `explore` enumerates all choice sequences by
//! depth-first backtracking and re-execution.
use std::cell::RefCell;

#[derive(Default)]
struct Chooser {
    active: bool,
    prefix: Vec<(u32, u32)>, // (choice, arity)
    pos: usize,
    diverged: bool,
    fixed: Option<Vec<u32>>,
    /// cost (deviations) accounting
    deviations: u32,
    max_deviations: u32,
}

thread_local! {
    static CH: RefCell<Chooser> = RefCell::new(Chooser::default());
}

/// Choose a number below `n`; choice 0 is the default.
pub fn choose(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    CH.with(|c| {
        let c = &mut *c.borrow_mut();
        if !c.active {
            return 0;
        }
        let p = c.pos;
        c.pos += 1;
        if let Some(f) = &c.fixed {
            let v = f.get(p).copied().unwrap_or(0);
            c.prefix.push((v, n));
            return v.min(n - 1);
        }
        if p < c.prefix.len() {
            if c.prefix[p].1 != n {
                c.diverged = true;
                c.prefix.truncate(p);
                c.prefix.push((0, n));
            }
        } else {
            c.prefix.push((0, n));
        }
        let v = c.prefix[p].0;
        if v != 0 {
            c.deviations += 1;
        }
        v
    })
}

/// Run `f` once for every sequence of choices (with at most `max_dev` non-default choices).
/// Returns the number of executions and of choice points met.  `f` gets the number of the execution.
pub fn explore<E>(max_dev: u32, cap: u64, mut f: impl FnMut() -> Result<(), E>) -> Result<(u64, u64, bool), (E, Vec<u32>)> {
    CH.with(|c| {
        *c.borrow_mut() = Chooser { active: true, max_deviations: max_dev, ..Default::default() };
    });
    let mut execs = 0;
    let mut points = 0;
    let mut capped = false;
    loop {
        CH.with(|c| {
            let mut c = c.borrow_mut();
            c.pos = 0;
            c.deviations = 0;
        });
        let r = f();
        execs += 1;
        if let Err(e) = r {
            let ch = current();
            CH.with(|c| c.borrow_mut().active = false);
            return Err((e, ch));
        }
        let more = CH.with(|c| {
            let c = &mut *c.borrow_mut();
            if c.diverged || c.pos < c.prefix.len() {
                // Fewer or other queries under the same answers.
                c.diverged = true;
                return false;
            }
            points += c.prefix.len() as u64;
            while let Some((v, n)) = c.prefix.pop() {
                let dev_before = c.prefix.iter().filter(|x| x.0 != 0).count() as u32;
                if v + 1 < n && dev_before + 1 <= c.max_deviations {
                    c.prefix.push((v + 1, n));
                    return true;
                }
            }
            false
        });
        if CH.with(|c| c.borrow().diverged) {
            CH.with(|c| c.borrow_mut().active = false);
            std::panic::panic_any(crate::runner::Diverged);
        }
        if !more {
            break;
        }
        if execs >= cap {
            capped = true;
            break;
        }
    }
    CH.with(|c| c.borrow_mut().active = false);
    Ok((execs, points, capped))
}

/// The choices taken in the current execution.
pub fn current() -> Vec<u32> {
    CH.with(|c| c.borrow().prefix.iter().map(|x| x.0).collect())
}

/// Run once with given choices (0 after them).
pub fn with_fixed<R>(choices: Vec<u32>, f: impl FnOnce() -> R) -> R {
    CH.with(|c| *c.borrow_mut() = Chooser { active: true, fixed: Some(choices), ..Default::default() });
    let r = f();
    CH.with(|c| c.borrow_mut().active = false);
    r
}

pub fn off() {
    CH.with(|c| c.borrow_mut().active = false);
}
