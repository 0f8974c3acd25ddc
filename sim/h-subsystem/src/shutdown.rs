//! U03: orderly shutdown; U04: failures, stuck subsystems and bounded time.
use crate::calls::*;
use crate::model::*;
use crate::subs::*;
use detsim::*;
use std::time::Duration;
use subsystem::{Manager, ManagerConfig};

/// Orderly shutdown requested from anywhere, with calls in flight and hooks that use earlier subsystems.
pub fn orderly() {
    random_schedule_config();
    set_limits(40_000, Some("U03/stuck"));
    set_hang_class("U03/stuck");
    let n = 1 + choose(Stream::Work, 5) as usize;
    let rt = runtime();
    let timeout = choose(Stream::Work, 2) == 0;
    let cfg = ManagerConfig::new("sim");
    let cfg = if timeout { cfg.with_shutdown_timeout_per_subsystem(Duration::from_secs(1_000_000)) } else { cfg.disable_shutdown_timeout() };
    let mut mgr = Manager::new_with_config(cfg);
    let mut handles: Vec<subsystem::Handle<Sub>> = vec![];
    // watchers: long calls that only end when the "shutdown initiated" flag is raised
    let mut flags = vec![];
    for i in 0..n {
        let mut s = Sub::new(i);
        s.bg = small(Stream::Work, 4);
        s.hook.pause = choose(Stream::Work, 8);
        for h in &handles {
            if choose(Stream::Work, 2) == 0 {
                s.hook.calls.push(h.clone());
            }
        }
        let p = choose(Stream::Work, 6);
        let (tx, rx) = std::sync::mpsc::channel();
        handles.push(mgr.add_custom_subsystem(NAMES[i], move |_own, flag| {
            tx.send(flag).unwrap();
            async move {
                pause(p).await;
                Ok::<_, std::convert::Infallible>(s)
            }
        }));
        flags.push(rx.recv().unwrap());
    }
    let who = choose(Stream::Work, 5);
    let ntrig = 1 + small(Stream::Work, 3);
    let trigs: Vec<_> = (0..ntrig).map(|_| mgr.make_shutdown_trigger()).collect();
    let late = mgr.make_shutdown_trigger();
    let delay = choose(Stream::Work, 60);
    let nc = choose(Stream::Work, 3);
    let plans: Vec<_> = (0..nc).map(|_| plan(n, 6)).collect();
    // long-running read calls that end only when the shutdown flag is raised
    // (with the request coming from a call, such calls could block it)
    let nwatch = if who == 4 { 0 } else { choose(Stream::Work, 3) };
    let watch_on: Vec<usize> = (0..nwatch).map(|_| choose(Stream::Work, n as u64) as usize).collect();
    let victim = choose(Stream::Work, n as u64) as usize;
    let hs = handles.clone();
    let mut trigs = trigs.into_iter();
    if who == 0 {
        // before the manager even runs
        go_down("request before start");
        for t in trigs.by_ref() {
            t.initiate();
        }
    }
    let mut ext = None;
    if who == 1 {
        let ts: Vec<_> = trigs.by_ref().collect();
        ext = Some(std::thread::spawn(move || {
            for t in ts {
                std::thread::sleep(Duration::from_millis(delay % 5));
                go_down("request from a thread");
                t.initiate();
            }
        }));
    }
    let trigs: Vec<_> = trigs.collect();
    rt.block_on(async move {
        let main = tokio::spawn(async move {
            mgr.main().await;
            m(|m| {
                check!(m.hook_end.len() == n, "U03/main-too-early", "the manager finished after {} of {n} subsystems", m.hook_end.len());
                m.main_done = true
            });
        });
        let mut js = vec![];
        for (k, w) in watch_on.iter().enumerate() {
            let (h, w, mut flag) = (hs[*w].clone(), *w, flags[*w].clone());
            let c = new_caller();
            js.push(tokio::spawn(async move {
                let seq = submit(w, c, Kind::Ref);
                let r = h
                    .call_async(move |s| {
                        Box::pin(async move {
                            begin(w, c, seq, Kind::Ref);
                            if k % 2 == 0 {
                                while !flag.borrow().test() {
                                    if flag.changed().await.is_err() {
                                        break;
                                    }
                                }
                            } else {
                                while !flag.borrow().test() {
                                    tokio::time::sleep(Duration::from_millis(20)).await;
                                }
                            }
                            m(|m| check!(m.down, "U03/unrequested", "the shutdown flag was raised although nobody asked"));
                            pause(k as u64 * 2).await;
                            end(w, c, seq, Kind::Ref);
                            Answer { sub: w, caller: c, seq, version: s.b }
                        })
                    })
                    .await;
                answered(w, c, seq, &r);
                count("flag_watchers", 1);
            }));
        }
        for p in plans {
            js.push(tokio::spawn(client(hs.clone(), p, false)));
        }
        match who {
            0 | 1 => {}
            2 | 3 => {
                // from a task
                for t in trigs {
                    for _ in 0..delay {
                        tokio::task::yield_now().await;
                    }
                    go_down("request from a task");
                    t.initiate();
                }
            }
            _ => {
                // from inside a call of a subsystem
                for t in trigs {
                    let _ = hs[victim].as_submit_only().submit_async_mut(move |_| {
                        Box::pin(async move {
                            pause(delay % 7).await;
                            go_down("request from a call");
                            t.initiate();
                        })
                    });
                }
            }
        }
        main.await.unwrap();
        late.initiate();
        for j in js {
            j.await.unwrap();
        }
        for (i, h) in hs.iter().enumerate() {
            let c = new_caller();
            let (q, r) = start(i, h, c, Kind::Ref, true, 1);
            let r = finish(i, c, q, r).await;
            check!(r.is_err(), "U01/answered-after-stop", "a call to stopped subsystem {i} was answered");
        }
    });
    if let Some(e) = ext {
        e.join().unwrap();
    }
    drop(rt);
    check_order(n);
    final_checks(n);
    if n > 1 {
        nontrivial();
    }
    set_sample(format!("{n} subsystems, {nc} clients, {nwatch} flag watchers, {ntrig} requests from place {who}"));
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fail {
    None,
    InitErr,
    InitPanic,
    MutPanic,
    RefPanic,
    BgPanic,
    HookPanic,
    StuckInit,
    StuckMut,
    StuckRef,
    StuckHook,
}
#[derive(Debug)]
struct InitError;
impl std::fmt::Display for InitError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected")
    }
}
impl std::error::Error for InitError {}

/// Some subsystems fail or hang; the manager must finish within the sum of the timeouts.
pub fn failure() {
    random_schedule_config();
    no_timer_race(); // elapsed virtual time is compared with a bound
    set_limits(40_000, Some("U04/stuck"));
    set_hang_class("U04/stuck");
    allow_panics();
    let n = 1 + choose(Stream::Work, 4) as usize;
    let rt = runtime();
    let t_ms = [50u64, 200, 1000][choose(Stream::Work, 3) as usize];
    let mut mgr = Manager::new_with_config(ManagerConfig::new("sim").with_shutdown_timeout_per_subsystem(Duration::from_millis(t_ms)));
    let fails: Vec<Fail> = (0..n)
        .map(|_| match choose(Stream::Work, 16) {
            1 => Fail::InitErr,
            2 => Fail::InitPanic,
            3 => Fail::MutPanic,
            4 => Fail::RefPanic,
            5 => Fail::BgPanic,
            6 => Fail::HookPanic,
            7 => Fail::StuckInit,
            8 => Fail::StuckMut,
            9 => Fail::StuckRef,
            10 | 11 => Fail::StuckHook,
            _ => Fail::None,
        })
        .collect();
    // does anything bring the system down by itself?
    let spontaneous = fails.iter().any(|f| matches!(f, Fail::InitErr | Fail::InitPanic | Fail::MutPanic | Fail::RefPanic | Fail::BgPanic));
    let panics = fails.iter().any(|f| matches!(f, Fail::InitPanic | Fail::MutPanic | Fail::RefPanic | Fail::BgPanic | Fail::HookPanic));
    let request = !spontaneous || choose(Stream::Work, 3) == 0;
    let mut handles: Vec<subsystem::Handle<Sub>> = vec![];
    for (i, f) in fails.iter().enumerate() {
        let f = *f;
        let mut s = Sub::new(i);
        s.bg = small(Stream::Work, 3);
        if f == Fail::BgPanic {
            s.bg = 1 + s.bg;
            s.bg_panic = true;
        }
        s.hook.pause = choose(Stream::Work, 4);
        s.hook.stuck = f == Fail::StuckHook;
        s.hook.panic = f == Fail::HookPanic;
        let p = choose(Stream::Work, 6);
        handles.push(mgr.add_custom_subsystem(NAMES[i], move |_, _| async move {
            pause(p).await;
            match f {
                Fail::InitErr => {
                    go_down("initialisation error");
                    count("fault.init_error", 1);
                    Err(InitError)
                }
                Fail::InitPanic => {
                    go_down("initialisation panic");
                    count("fault.init_panic", 1);
                    panic!("injected: init")
                }
                Fail::StuckInit => {
                    count("fault.stuck_init", 1);
                    std::future::pending().await
                }
                _ => Ok(s),
            }
        }));
    }
    let trig = mgr.make_shutdown_trigger();
    for f in &fails {
        if !matches!(f, Fail::None | Fail::InitErr | Fail::InitPanic | Fail::StuckInit | Fail::StuckHook) {
            count(&format!("fault.{f:?}"), 1);
        }
    }
    let delay = choose(Stream::Work, 40);
    let timers = choose(Stream::Work, 30);
    let hs = handles.clone();
    let hs2 = handles.clone();
    let f2 = fails.clone();
    let result = rt.block_on(async move {
        let main = tokio::spawn(async move { mgr.main().await });
        for (i, f) in f2.iter().enumerate() {
            let so = hs[i].as_submit_only();
            let _ = match f {
                Fail::MutPanic => so.submit_async_mut(move |_| {
                    Box::pin(async move {
                        pause(timers % 6).await;
                        go_down("panic in a mutating call");
                        panic!("injected: mut call")
                    })
                }),
                Fail::RefPanic => so.submit_async(move |_| {
                    Box::pin(async move {
                        pause(timers % 6).await;
                        go_down("panic in a read call");
                        panic!("injected: ref call")
                    })
                }),
                Fail::StuckMut => so.submit_async_mut(|_| Box::pin(std::future::pending())),
                Fail::StuckRef => so.submit_async(|_| Box::pin(std::future::pending())),
                _ => Ok(()),
            };
        }
        let t2 = if request {
            Some(tokio::spawn(async move {
                for _ in 0..delay {
                    tokio::task::yield_now().await;
                }
                if delay % 3 == 0 {
                    tokio::time::sleep(Duration::from_millis(delay)).await;
                }
                go_down("request");
                trig.initiate();
            }))
        } else {
            None
        };
        let r = main.await;
        let t = now_ns();
        if let Some(t2) = t2 {
            t2.await.unwrap();
        }
        // subsystems that are not stuck go away even if a panic ended the manager early
        tokio::time::sleep(Duration::from_millis(t_ms * (n as u64 + 2))).await;
        for (i, h) in hs.iter().enumerate() {
            if matches!(f2[i], Fail::StuckInit | Fail::StuckMut | Fail::StuckRef | Fail::StuckHook) {
                continue;
            }
            let r = h.call(|s| s.id).await;
            check!(r.is_err(), "U04/survivor", "subsystem {i} still answers calls after the system went down ({:?})", f2);
        }
        (r.map_err(|e| e.is_panic()), t)
    });
    rt.shutdown_background();
    let (r, t) = result;
    let stuck = fails.iter().filter(|f| matches!(f, Fail::StuckInit | Fail::StuckMut | Fail::StuckRef | Fail::StuckHook)).count() as u64;
    let down_at = m(|m| {
        check!(m.down, "U04/unrequested", "the manager finished although nothing failed and nobody asked");
        m.down_at
    });
    // every hook pauses a few ms at most; only stuck subsystems may use up their timeout
    let bound = down_at + (stuck * (t_ms + 2) + 15 * n as u64 + 30) * MS;
    check!(t <= bound, "U04/too-slow", "the manager needed {} ms to finish with {stuck} stuck subsystems and a timeout of {t_ms} ms each ({fails:?})", (t - down_at) / MS);
    match r {
        Ok(()) => {}
        Err(true) => check!(panics, "U04/panic", "the manager panicked although no subsystem did"),
        Err(false) => violation("U04/panic", "the manager task was cancelled".into()),
    }
    if !panics {
        // orderly otherwise: every initialised subsystem got its hook, in reverse order
        m(|m| {
            // a call that would hang may not have been started before the shutdown
            let may = |i: &usize| matches!(fails[*i], Fail::StuckMut | Fail::StuckRef) && m.hook_begin.contains(i);
            let exp: Vec<usize> = (0..n).rev().filter(|i| may(i) || !matches!(fails[*i], Fail::InitErr | Fail::InitPanic | Fail::StuckInit | Fail::StuckMut | Fail::StuckRef)).collect();
            check!(m.hook_begin == exp, "U03/order", "shutdown hooks began in order {:?}, expected {exp:?} with {fails:?}", m.hook_begin);
        });
    }
    if n > 1 || spontaneous {
        nontrivial();
    }
    let _ = hs2;
    set_sample(format!("{fails:?}, request: {request}, timeout {t_ms} ms"));
}
