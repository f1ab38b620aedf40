//! C30: builds with any subset of the library's optional features behave alike.
//!
//! `features.sh` makes sixteen builds of `feat.rs`. Each case is a tape that all of them are given.
use crate::{engine::*, ensure, feat::*};
use std::{
    cell::RefCell,
    collections::BTreeMap,
    io::{BufRead, BufReader, Write},
    process::{Child, ChildStdin, ChildStdout, Command, Stdio},
};

struct Build {
    bits: [bool; 4],
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Build {
    fn start(bits: [bool; 4]) -> Build {
        let dir = std::env::var("MCHECK_LITE").map(Into::into).unwrap_or(verif_dir().join("target/lite/bin"));
        let mut child = Command::new(dir.join(name(bits))).arg("observe").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("a build of features.sh");
        let to = child.stdin.take().unwrap();
        let mut from = BufReader::new(child.stdout.take().unwrap());
        let mut l = String::new();
        from.read_line(&mut l).unwrap();
        assert_eq!(l.trim(), name(bits), "the build has other features");
        Build { bits, child, to, from }
    }
    fn send(&mut self, tape: &str) {
        // a build that died is noticed by its answer
        let _ = self.to.write_all(tape.as_bytes());
        let _ = self.to.flush();
    }
    fn answer(&mut self) -> Seen {
        let mut l = String::new();
        if self.from.read_line(&mut l).is_err() || !l.ends_with('\n') {
            let st = self.child.wait();
            *self = Build::start(self.bits);
            return vec![(Scope::Bad, format!("the process died: {st:?}"))];
        }
        l.trim_end_matches('\n').split('\t').filter(|x| !x.is_empty()).map(|x| (Scope::read(x.chars().next().unwrap()), x[1..].to_string())).collect()
    }
}
impl Drop for Build {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static BUILDS: RefCell<Vec<Build>> = const { RefCell::new(Vec::new()) };
}

fn ask(tape: &[u64]) -> Vec<([bool; 4], Seen)> {
    let line = tape.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" ") + "\n";
    BUILDS.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_empty() {
            *b = (0..16).map(|i| Build::start([i & 1 != 0, i & 2 != 0, i & 4 != 0, i & 8 != 0])).collect();
        }
        for x in b.iter_mut() {
            x.send(&line);
        }
        b.iter_mut().map(|x| (x.bits, x.answer())).collect()
    })
}

fn c30(s: &mut Src, c: &mut Ctx) -> Res {
    let kind = s.usize(KINDS.len());
    let n = 20 + s.usize(300);
    let mut tape = vec![kind as u64];
    // what was not drawn is zero
    tape.extend((0..n).map(|_| s.u64()));
    let seen = ask(&tape);
    c.label(KINDS[kind]);
    c.evals += 16;
    let full = &seen[15].1;
    c.nontrivial = full.iter().any(|(x, t)| *x != Scope::Bad && t.len() > 60);
    c.note(full.iter().map(|(x, t)| format!("{x:?} {}", t.chars().take(160).collect::<String>())).collect::<Vec<_>>().join(" / "));
    for (b, seen) in &seen {
        for (sc, t) in seen {
            ensure!(*sc != Scope::Bad, "bad", "[{}] {t}", name(*b));
        }
    }
    // builds in the same group have seen the same
    let mut groups: BTreeMap<(Scope, bool), Vec<([bool; 4], Vec<&str>)>> = BTreeMap::new();
    for (b, seen) in &seen {
        for sc in [Scope::All, Scope::SameRsa, Scope::WithTcp, Scope::WithJson] {
            let key = match sc {
                Scope::All => false,
                Scope::SameRsa => b[2],
                Scope::WithTcp if b[1] => true,
                Scope::WithJson if b[3] => true,
                _ => {
                    ensure!(seen.iter().all(|x| x.0 != sc), "harness", "[{}] has what belongs to another feature", name(*b));
                    continue;
                }
            };
            groups.entry((sc, key)).or_default().push((*b, seen.iter().filter(|x| x.0 == sc).map(|x| x.1.as_str()).collect()));
        }
    }
    for ((sc, _), g) in groups {
        let (b0, want) = &g[g.len() - 1];
        for (b, got) in &g {
            if let Some(i) = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)) {
                return fail("differs", format!("{sc:?}: with the features [{}] {:?}, with [{}] {:?}", name(*b), got.get(i), name(*b0), want.get(i)));
            }
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        level: "exploration",
        rule: "the build with all features made an observation of more than 60 characters (a conversation with at least a login, a pool history, the options, printed values)",
        assumptions: &[
            "builds agree on everything observed at the interface: results, errors, virtual times, every byte sent; encrypted passwords only by their length",
            "builds without caching-sha2-password are compared with each other where that method is involved, and must refuse to connect if it is required",
            "real sockets are used only in the builds with tcpstream",
        ],
        parts: vec![part("subsets", 40_000, 1_000_000, c30)],
    }]
}
