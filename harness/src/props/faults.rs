//! C13 timeouts, C14 broken streams.
use super::results::*;
use crate::{engine::*, ensure, mock::*, script::*, server::*, wire::*};
use mysql_connector::types::Value;
use std::{io::ErrorKind, time::Duration};

pub fn clean_run(sc: &Script, plan: &IoPlan) -> Result<(Trace, u64, u64, Vec<u64>), Fail> {
    let link = sc.link(plan.clone());
    let t = match crate::mock::run(sc.run(&link)) {
        Ok(t) => t,
        Err(_) => return Err(hang("conversation without a fault")),
    };
    if let Some((k, d)) = &t.fatal {
        return fail("unexpected-error", format!("conversation without a fault: {k:?} {d}"));
    }
    let l = link.lock();
    let (r, w) = (l.read_total, l.write_total);
    drop(l);
    let (ends, quit, part) = link.with::<Server, _>(|x| (x.sess.ends.clone(), x.quit, x.partial()));
    ensure!(quit == sc.quit && part == 0, "quit", "disconnect {}, the server was told to end the session: {quit} ({part} bytes of an unfinished message)", if sc.quit { "called" } else { "not called" });
    Ok((t, r, w, ends))
}

fn fault_run(sc: &Script, plan: IoPlan, what: &str) -> Result<Trace, Fail> {
    let link = sc.link(plan);
    match crate::mock::run(sc.run(&link)) {
        Ok(t) => Ok(t),
        Err(_) => Err(hang(what)),
    }
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionAborted,
    ErrorKind::UnexpectedEof,
    ErrorKind::Other,
    ErrorKind::NotConnected,
    ErrorKind::InvalidData,
    ErrorKind::WouldBlock,
];

/// the offsets to try: all of them, or the ones around packet ends and some others
fn offsets(s: &mut Src, total: u64, ends: &[u64], all: bool, max: usize) -> Vec<u64> {
    if all && total <= max as u64 {
        return (0..total).collect();
    }
    let mut v: Vec<u64> = Vec::new();
    for e in ends {
        for d in [-5i64, -4, -1, 0, 1, 3, 4, 5] {
            let x = *e as i64 + d;
            if x >= 0 && (x as u64) < total {
                v.push(x as u64);
            }
        }
    }
    for _ in 0..max / 4 {
        v.push(s.below(total));
    }
    v.sort();
    v.dedup();
    while v.len() > max {
        let i = s.usize(v.len());
        v.swap_remove(i);
    }
    v
}

fn broken_read(sc: &Script, plan: &IoPlan, clean: &Trace, x: u64, f: Fault, once: bool) -> Res {
    let mut p = plan.clone();
    p.read_fault = Some((x, f.clone()));
    p.once = once;
    let t = fault_run(sc, p, "conversation on a stream that breaks while reading")?;
    let at = format!("server bytes end after {x} ({f:?}{})", if once { ", once" } else { "" });
    prefix(clean, &t)?;
    let usable = clean.obs.iter().filter(|o| o.read <= x).count();
    ensure!(t.obs.len() <= usable, "invented", "{at}: {:?} was delivered although its answer is incomplete", t.obs.last().map(|o| &o.what));
    match &t.fatal {
        None => return fail("swallowed", format!("{at}: no call failed")),
        Some((crate::gen::Kind::Server, d)) => return fail("invented", format!("{at}: reported as server error {d}")),
        Some((crate::gen::Kind::TimedOut, d)) if !matches!(f, Fault::Err(ErrorKind::TimedOut)) => return fail("wrong-error", format!("{at}: reported as timeout {d}")),
        _ => {}
    }
    ensure!(t.obs.len() == usable, "lost", "{at}: {} calls succeeded although the answers of {usable} had arrived completely ({:?})", t.obs.len(), t.fatal);
    after(&t, &at)
}
fn after(t: &Trace, at: &str) -> Res {
    for a in &t.after {
        ensure!(a.is_err(), "used-again", "{at}: a later call on the connection returned {a:?}");
    }
    Ok(())
}
fn broken_write(sc: &Script, plan: &IoPlan, clean: &Trace, w: u64, f: Fault, once: bool) -> Res {
    let mut p = plan.clone();
    p.write_fault = Some((w, f.clone()));
    p.once = once;
    let t = fault_run(sc, p, "conversation on a stream that breaks while writing")?;
    let at = format!("stream breaks after {w} client bytes ({f:?}{})", if once { ", once" } else { "" });
    prefix(clean, &t)?;
    let lo = clean.obs.iter().filter(|o| o.written < w).count();
    let hi = clean.obs.iter().filter(|o| o.written <= w).count();
    ensure!(t.obs.len() <= hi, "invented", "{at}: {:?} was delivered although the command was not sent", t.obs.last().map(|o| &o.what));
    match &t.fatal {
        None => return fail("swallowed", format!("{at}: no call failed")),
        Some((crate::gen::Kind::Server, d)) => return fail("invented", format!("{at}: reported as server error {d}")),
        Some((crate::gen::Kind::TimedOut, d)) => return fail("wrong-error", format!("{at}: reported as timeout {d}")),
        _ => {}
    }
    ensure!(t.obs.len() >= lo, "lost", "{at}: {} calls succeeded although {lo} were not concerned ({:?})", t.obs.len(), t.fatal);
    after(&t, &at)
}

fn c14_all(s: &mut Src, c: &mut Ctx) -> Res {
    let sc = Script::gen(s, 4);
    let mut plan = IoPlan::gen(s);
    plan.pend = plan.pend.min(10);
    let (clean, r, w, ends) = clean_run(&sc, &plan)?;
    c.nontrivial = true;
    c.note(format!("{} server bytes, {} client bytes, {} observations, {}, {}", r, w, clean.obs.len(), plan.show(), sc.show()));
    let once = s.chance(1, 3);
    let fr = if once || s.bool() { Fault::Err(*s.pick(KINDS)) } else { Fault::Eof };
    for x in offsets(s, r, &ends, true, 3000) {
        c.evals += 1;
        broken_read(&sc, &plan, &clean, x, fr.clone(), once)?;
    }
    let fw = if once || s.bool() { Fault::Err(*s.pick(KINDS)) } else { Fault::Zero };
    for x in offsets(s, w, &[], true, 1500) {
        c.evals += 1;
        broken_write(&sc, &plan, &clean, x, fw.clone(), once)?;
    }
    Ok(())
}

/// result sets with rows beyond one packet, cut around every packet end
fn c14_large(s: &mut Src, c: &mut Ctx) -> Res {
    let mut sc = Script::gen(s, 1);
    let prep = if s.bool() { Some(vec![]) } else { None };
    let n = match s.below(3) {
        0 => MAX - 4 + s.usize(8),
        1 => 66_000 + s.usize(10),
        _ => MAX * s.usize(2) + 1000 + s.usize(10),
    };
    let seed = s.below(1 << 30) | 1;
    let k = s.usize(3);
    let mut rows: Vec<Row> = (0..k).map(|i| vec![Value::Bytes(vec![b'a' + i as u8])]).collect();
    let at = s.usize(k + 1);
    rows.insert(at, vec![Value::Bytes(expand(seed, n))]);
    let rs = Rs { cols: vec![Col::new("x", ct::BLOB)], rows, styles: vec![], end: End::Done(Ok_::default()), mid: Ok_::default() };
    let read = *s.pick(&[How::Rows, How::Collect, How::Finish(0), How::One, How::Drop(0)]);
    sc.steps = vec![Step::Query { prep, rs, read }];
    let plan = IoPlan::default();
    let (clean, r, _, ends) = clean_run(&sc, &plan)?;
    c.nontrivial = true;
    c.note(format!("row of {n} bytes, {r} server bytes in {} packets, {}", ends.len(), sc.show()));
    let first = clean.obs.first().map_or(0, |o| o.read);
    let v: Vec<u64> = offsets(s, r, &ends, false, 60).into_iter().filter(|x| *x >= first).collect();
    for x in v {
        c.evals += 1;
        let once = s.chance(1, 3);
        let f = if once || s.bool() { Fault::Err(*s.pick(KINDS)) } else { Fault::Eof };
        broken_read(&sc, &plan, &clean, x, f, once)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

fn gen_timeout(s: &mut Src) -> Duration {
    match s.below(8) {
        0 => DEFAULT_TIMEOUT,
        1 => Duration::from_millis(1 + s.below(86_400_000)),
        2 => Duration::from_secs(86_400 * (1 + s.below(300))) + Duration::from_millis(s.below(1000)),
        3 => Duration::from_micros(1000 + s.below(5_000_000)),
        _ => Duration::from_millis(*s.pick(&[1u64, 5, 100, 1000, 10_000, 3_600_000, 50, 777, 60_000])),
    }
}

fn stalled(sc: &Script, t: &Trace, at: &str) -> Res {
    match &t.fatal {
        Some((crate::gen::Kind::TimedOut, _)) => {}
        x => return fail("no-timeout", format!("{at}: the call ended with {x:?}")),
    }
    let (lo, hi) = match sc.timeout {
        // what Default chooses is its own business, so long as it is a timeout for a conversation
        DEFAULT_TIMEOUT => (Duration::from_millis(100), Duration::from_secs(3600)),
        t => (t, t * 3 / 2 + Duration::from_millis(10)),
    };
    ensure!(t.fatal_time >= lo, "early", "{at}: timed out after {:?}, configured are {:?}", t.fatal_time, sc.timeout);
    ensure!(t.fatal_time <= hi, "late", "{at}: timed out after {:?}, configured are {:?}", t.fatal_time, sc.timeout);
    Ok(())
}

fn c13_stall(s: &mut Src, c: &mut Ctx) -> Res {
    let mut sc = Script::gen(s, 3);
    sc.timeout = gen_timeout(s);
    let mut plan = IoPlan::gen(s);
    plan.pend = plan.pend.min(10);
    let (clean, r, w, ends) = clean_run(&sc, &plan)?;
    c.nontrivial = true;
    c.note(format!("timeout {:?}, {} server bytes, {} client bytes, {}, {}", sc.timeout, r, w, plan.show(), sc.show()));
    for x in offsets(s, r, &ends, true, 400) {
        c.evals += 1;
        let mut p = plan.clone();
        p.read_fault = Some((x, Fault::Stall));
        let at = format!("server silent after {x} bytes");
        let t = fault_run(&sc, p, &at)?;
        prefix(&clean, &t)?;
        let usable = clean.obs.iter().filter(|o| o.read <= x).count();
        stalled(&sc, &t, &at)?;
        ensure!(t.obs.len() == usable, "wrong-call", "{at}: {} calls succeeded, {usable} had their answer", t.obs.len());
        after(&t, &at)?;
    }
    for x in offsets(s, w + 1, &[], true, 300) {
        c.evals += 1;
        let mut p = plan.clone();
        p.write_fault = Some((x, Fault::Stall));
        let at = format!("server stops reading after {x} bytes");
        let t = fault_run(&sc, p, &at)?;
        prefix(&clean, &t)?;
        stalled(&sc, &t, &at)?;
        let lo = clean.obs.iter().filter(|o| o.written < x).count();
        let hi = clean.obs.iter().filter(|o| o.written <= x).count();
        ensure!((lo..=hi).contains(&t.obs.len()), "wrong-call", "{at}: {} calls succeeded, expected {lo}..={hi}", t.obs.len());
        after(&t, &at)?;
    }
    Ok(())
}

fn c13_slow(s: &mut Src, c: &mut Ctx) -> Res {
    let mut sc = Script::gen(s, 3);
    sc.timeout = Duration::from_millis(*s.pick(&[20u64, 100, 1000, 1999, 10_000, 60_000, 3_600_000, 36_000_000]));
    let ms = sc.timeout.as_millis() as u64;
    let plan = IoPlan { buffered: *s.pick(&[None, Some(0), Some(usize::MAX)]), ..IoPlan::default() };
    let (clean, ..) = clean_run(&sc, &plan)?;
    let mut p = plan.clone();
    let kind = s.below(4);
    let mut before = None;
    let mut inside = None;
    match kind {
        0 => before = Some(ms - 1 - s.below(ms / 4)),
        1 => inside = Some((1 + s.usize(8), ms - 1 - s.below(ms / 4))),
        2 => {
            before = Some(1 + s.below(ms / 2 - 1));
            inside = Some((1 + s.usize(8), 1 + s.below(ms / 2 - 2)));
        }
        _ => p.write_delay = Some(Duration::from_millis(1.max(ms / 4 - 2))),
    }
    let link = sc.link(p.clone());
    {
        let mut l = link.lock();
        let srv = l.peer::<Server>();
        srv.sess.delay_before_packet = before.map(Duration::from_millis);
        srv.sess.delay_inside = inside.map(|(k, d)| (k, Duration::from_millis(d)));
        // the greeting is queued already
        if let Some(d) = before {
            l.out.segs.push_front(Seg::Delay(Duration::from_millis(d)));
        }
    }
    c.nontrivial = true;
    c.note(format!("timeout {ms} ms, before each packet {before:?} ms, inside {inside:?}, per write {:?}, {}", p.write_delay, sc.show()));
    let t = match crate::mock::run(sc.run(&link)) {
        Ok(t) => t,
        Err(_) => return Err(hang("conversation with a slow server")),
    };
    if let Some((k, d)) = &t.fatal {
        return fail("spurious", format!("a server that answers within the timeout: {k:?} {d} after {:?}", t.fatal_time));
    }
    prefix(&clean, &t)?;
    ensure!(t.obs.len() == clean.obs.len(), "spurious", "{} observations instead of {}", t.obs.len(), clean.obs.len());
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            level: "fault_enumeration",
            rule: "a generated conversation (login kinds, statements, result sets) is run cleanly on a virtual clock, then stalled at every server byte (up to 400 offsets) and every client byte (up to 300) and slowed down within the limit; every case is non-trivial; evaluations counts the runs",
            assumptions: &["virtual time of tokio's paused clock; the built-in sleep and a caller-provided one (second build)", "connecting the stream itself (Stream::connect) is outside the library's timeout"],
            parts: vec![part("stall", 4_000, 12_000, c13_stall), part("slow", 30_000, 200_000, c13_slow)],
        },
        Prop {
            id: "C14",
            level: "fault_enumeration",
            rule: "a generated conversation is run cleanly, then cut or failed at every server byte and every client byte (all offsets up to 3000/1500, packet ends ±5 beyond); every case is non-trivial; evaluations counts the runs",
            assumptions: &["one fault per run"],
            parts: vec![part("every-byte", 600, 12_000, c14_all), part("large", 64, 1500, c14_large)],
        },
    ]
}
