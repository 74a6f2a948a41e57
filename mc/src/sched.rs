//! Controlled scheduler: runs real threads one at a time and explores every
//! order of their lock steps (optionally up to a number of preemptions).

use portgraph::mc_sync::{set_hook, Step};
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Blocked(usize),
    Done,
}

struct State {
    turn: Option<usize>,
    status: Vec<Status>,
    abort: bool,
}

struct Sched {
    m: Mutex<State>,
    cv: Condvar,
}

thread_local! {
    static CUR: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

/// Watch the locks of regions.
pub fn install() {
    set_hook(hook);
}

fn hook(addr: usize, step: Step) -> bool {
    let Some((s, me)) = CUR.with(|c| c.borrow().clone()) else {
        // Outside the scheduled executions no region is shared between threads.
        if step == Step::Blocked {
            panic!("deadlock: a query waits for a lock that the same thread holds");
        }
        return false;
    };
    let mut st = s.m.lock().unwrap();
    match step {
        Step::Released => {
            for x in st.status.iter_mut() {
                if *x == Status::Blocked(addr) {
                    *x = Status::Ready;
                }
            }
            return true;
        }
        Step::Blocked => st.status[me] = Status::Blocked(addr),
        Step::Try | Step::Taken => {}
    }
    st.turn = None;
    s.cv.notify_all();
    while st.turn != Some(me) && !st.abort {
        st = s.cv.wait(st).unwrap();
    }
    let abort = st.abort;
    drop(st);
    if abort && !std::thread::panicking() {
        panic!("aborted by the scheduler");
    }
    true
}

pub struct Explored {
    pub schedules: u64,
    pub steps: u64,
    pub complete: bool,
    /// Number of preemptions up to which everything was explored.
    pub bound: Option<usize>,
}

/// Explore the schedules of `bodies`, built afresh by `setup` for every
/// schedule. `finish` judges the outcome of one complete schedule.
/// `Err` carries the schedule and what went wrong.
///
/// Bounds of 0, 1, 2 and `preemptions` preemptions are explored one after
/// another, stopping at `max_schedules` executions.
pub fn explore<S: Sync, T: Send>(
    threads: usize,
    preemptions: usize,
    max_schedules: u64,
    setup: impl Fn() -> S,
    body: impl Fn(&S, usize) -> T + Sync,
    finish: impl Fn(&S, Vec<T>) -> Result<(), String>,
) -> Result<Explored, (Vec<usize>, String)> {
    let mut out = Explored { schedules: 0, steps: 0, complete: false, bound: None };
    let mut last = 0;
    let bounds: std::collections::BTreeSet<usize> = [0, 1, 2, preemptions].into_iter().filter(|b| *b <= preemptions).collect();
    for b in bounds {
        let left = max_schedules.saturating_sub(out.schedules);
        let x = explore_bound(threads, b, left, &setup, &body, &finish)?;
        out.schedules += x.schedules;
        out.steps += x.steps;
        if !x.complete {
            return Ok(out);
        }
        out.bound = Some(b);
        if x.schedules == last {
            // No schedule has more preemptions.
            out.bound = Some(usize::MAX);
            break;
        }
        last = x.schedules;
    }
    out.complete = true;
    Ok(out)
}

fn explore_bound<S: Sync, T: Send>(
    threads: usize,
    preemptions: usize,
    max_schedules: u64,
    setup: &impl Fn() -> S,
    body: &(impl Fn(&S, usize) -> T + Sync),
    finish: &impl Fn(&S, Vec<T>) -> Result<(), String>,
) -> Result<Explored, (Vec<usize>, String)> {
    install();
    let mut prefix: Vec<usize> = vec![];
    let mut out = Explored { schedules: 0, steps: 0, complete: true, bound: None };
    loop {
        // (enabled threads, choice, previously running)
        let mut log: Vec<(Vec<usize>, usize, Option<usize>)> = vec![];
        let s = setup();
        let sched = Arc::new(Sched { m: Mutex::new(State { turn: None, status: vec![Status::Ready; threads], abort: false }), cv: Condvar::new() });
        let mut deadlock = false;
        let results: Vec<std::thread::Result<T>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    let (sched, s, body) = (sched.clone(), &s, &body);
                    sc.spawn(move || {
                        CUR.with(|c| *c.borrow_mut() = Some((sched.clone(), t)));
                        {
                            let mut st = sched.m.lock().unwrap();
                            while st.turn != Some(t) && !st.abort {
                                st = sched.cv.wait(st).unwrap();
                            }
                        }
                        let r = crate::engine::catch_quiet(|| body(s, t));
                        CUR.with(|c| *c.borrow_mut() = None);
                        let mut st = sched.m.lock().unwrap();
                        st.status[t] = Status::Done;
                        st.turn = None;
                        sched.cv.notify_all();
                        r
                    })
                })
                .collect();
            let mut prev = None;
            let mut st = sched.m.lock().unwrap();
            loop {
                while st.turn.is_some() {
                    st = sched.cv.wait(st).unwrap();
                }
                let enabled: Vec<usize> = (0..threads).filter(|t| st.status[*t] == Status::Ready).collect();
                if enabled.is_empty() {
                    if st.status.iter().any(|x| *x != Status::Done) {
                        deadlock = true;
                        st.abort = true;
                        sched.cv.notify_all();
                    }
                    break;
                }
                let k = log.len();
                let c = if k < prefix.len() {
                    prefix[k]
                } else {
                    match prev {
                        Some(p) if enabled.contains(&p) => p,
                        _ => enabled[0],
                    }
                };
                log.push((enabled, c, prev));
                prev = Some(c);
                st.turn = Some(c);
                sched.cv.notify_all();
            }
            drop(st);
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        out.schedules += 1;
        crate::engine::heartbeat();
        out.steps += log.len() as u64;
        let schedule: Vec<usize> = log.iter().map(|x| x.1).collect();
        if deadlock {
            return Err((schedule, "the threads wait for each other forever".into()));
        }
        let mut vals = vec![];
        for r in results {
            match r {
                Ok(v) => vals.push(v),
                Err(e) => return Err((schedule, format!("a thread panicked: {}", crate::engine::panic_text(&e)))),
            }
        }
        if let Err(m) = finish(&s, vals) {
            return Err((schedule, m));
        }
        // next schedule, depth first
        let cost = |upto: usize| (0..upto).filter(|k| matches!(log[*k].2, Some(p) if p != log[*k].1 && log[*k].0.contains(&p))).count();
        let mut next = None;
        for k in (0..log.len()).rev() {
            let (en, c, prev) = &log[k];
            // order of trying: the previous thread first, then ascending
            let mut order: Vec<usize> = vec![];
            if let Some(p) = prev {
                if en.contains(p) {
                    order.push(*p);
                }
            }
            order.extend(en.iter().filter(|x| order.first() != Some(x)).copied().collect::<Vec<_>>());
            let at = order.iter().position(|x| x == c).unwrap();
            if at + 1 < order.len() {
                let preempts = matches!(prev, Some(p) if en.contains(p));
                if !preempts || cost(k) < preemptions {
                    next = Some((k, order[at + 1]));
                    break;
                }
            }
        }
        match next {
            None => break,
            Some((k, c)) => {
                prefix = schedule[..k].to_vec();
                prefix.push(c);
            }
        }
        if out.schedules >= max_schedules {
            out.complete = false;
            break;
        }
    }
    Ok(out)
}
