//! C22 applying migrations, C23 rolling them back.
use super::results::*;
use crate::{db::*, engine::*, ensure, gen::*, mock::*, server::*, wire::*};
use mysql_connector::{
    pool::{AsyncPool, AsyncPoolTrait},
    types::Value,
    Connection, Error, Migration, MigrationList, Migrator, Version,
};
use std::{
    cell::RefCell,
    cmp::Ordering,
    collections::{BTreeMap, BTreeSet},
    future::Future,
    pin::Pin,
    rc::Rc,
    sync::{Arc, Mutex},
    time::Duration,
};

type Ver = (u16, u16, u16);
type Key = (Ver, String);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Body {
    /// touches nothing
    Idle,
    /// some statements on one connection
    One(u8),
    /// gives the connection back between its statements
    Again,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    /// the server refuses a statement
    Statement,
    /// it never finishes: the process is ended while it runs
    Crash,
}

struct World {
    db: Shared_,
    /// what ran: (up, key)
    ran: Vec<(bool, Key)>,
    /// fails when it runs
    bad: BTreeMap<(bool, Key), Bad>,
    /// the records when a body began
    seen: Vec<BTreeSet<Key>>,
}
type W = Rc<RefCell<World>>;

struct Mig {
    w: W,
    name: &'static str,
    ver: Ver,
    up: Body,
    down: Body,
}

impl Mig {
    async fn go(&self, up: bool, pool: &dyn AsyncPoolTrait<Connection>) -> Result<(), Error> {
        let key = (self.ver, self.name.to_string());
        let bad = {
            let mut w = self.w.borrow_mut();
            w.ran.push((up, key.clone()));
            let r = records(&w.db);
            w.seen.push(r.unwrap_or_default().into_iter().collect());
            w.bad.get(&(up, key)).copied()
        };
        match if up { self.up } else { self.down } {
            Body::Idle => {}
            Body::One(n) => {
                let mut c = pool.get().await?;
                for i in 0..n {
                    c.execute_query(&format!("insert into `effects` (`n`) values ({i})")).await?;
                }
            }
            Body::Again => {
                for i in 0..2 {
                    pool.get().await?.execute_query(&format!("insert into `effects` (`n`) values ({i})")).await?;
                }
            }
        }
        match bad {
            None => Ok(()),
            Some(Bad::Statement) => pool.get().await?.execute_query("drop table `missing`").await.map(|_| ()),
            Some(Bad::Crash) => {
                tokio::time::sleep(Duration::from_secs(1_000_000)).await;
                Ok(())
            }
        }
    }
}
impl Migration for Mig {
    fn name(&self) -> &'static str {
        self.name
    }
    fn up<'a>(&'a self, pool: &'a dyn AsyncPoolTrait<Connection>) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        Box::pin(self.go(true, pool))
    }
    fn down<'a>(&'a self, pool: &'a dyn AsyncPoolTrait<Connection>) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        Box::pin(self.go(false, pool))
    }
}

/// the records in the migrations table, in no particular order; None: no such table
fn records(db: &Shared_) -> Option<Vec<Key>> {
    let db = db.lock().unwrap();
    let t = db.table("migrations")?;
    let col = |n: &str| t.col(n);
    let (a, b, c, d) = (col("version_0")?, col("version_1")?, col("version_2")?, col("name")?);
    let u = |v: &Value| match v {
        Value::UShort(x) => *x,
        v => panic!("version stored as {v:?}"),
    };
    Some(
        t.rows
            .iter()
            .map(|r| {
                let name = match &r[d] {
                    Value::Bytes(b) => String::from_utf8(b.clone()).unwrap(),
                    v => panic!("name stored as {v:?}"),
                };
                ((u(&r[a]), u(&r[b]), u(&r[c])), name)
            })
            .collect(),
    )
}

fn gen_ver(s: &mut Src) -> Ver {
    let part = |s: &mut Src| -> u16 {
        match s.below(4) {
            0 => s.below(3) as u16,
            1 => *s.pick(&[0, 1, 2, 9, 10, 11, 19, 20, 99, 100]),
            2 => *s.pick(&[0, 1, 127, 128, 255, 256, 257, 9999, 10000, 32767, 32768, 65534, 65535]),
            _ => s.below(12) as u16,
        }
    };
    (part(s), part(s), part(s))
}

fn gen_mig_name(s: &mut Src) -> String {
    let mut n = match s.below(6) {
        0 => s.pick(&["a", "b", "init", "Create", "add_user", "migrations", "version_0"]).to_string(),
        1 => s.pick(&["it's", "a\"b", "a\\", "\\'", "a`b", "%", "_", "a--b", "a;b", "a\nb", "a\0b", "'", "\\", "??", "1", "0x41", "😀"]).to_string(),
        2 => String::new(),
        3 => format!("m{}", s.below(12)),
        4 => s.string(8),
        _ => {
            let ch = *s.pick(&['x', 'ä', '\'', '😀']);
            std::iter::repeat_n(ch, s.usize(256)).collect()
        }
    };
    // written as `\z`: the known finding of C16
    n.retain(|c| c != '\u{1a}');
    while n.chars().count() > 255 {
        n.pop();
    }
    n
}

struct Lists {
    leaked: &'static [MigrationList],
    order: Vec<Key>,
}

fn gen_lists(s: &mut Src, w: &W, show: &mut String) -> Lists {
    let long = s.chance(1, 150);
    let n = if long { 10 + s.usize(60) } else { s.usize(6) };
    let mut vers = BTreeSet::new();
    for _ in 0..n {
        vers.insert(gen_ver(s));
    }
    let mut order = vec![];
    let mut lists = vec![];
    for ver in vers {
        let k = if long { s.usize(20) } else { s.usize(5) };
        let mut names: Vec<String> = vec![];
        for _ in 0..k {
            // the same name may appear under several versions
            let n = if !order.is_empty() && s.chance(1, 4) {
                let i = s.usize(order.len());
                (&order[i] as &Key).1.clone()
            } else {
                gen_mig_name(s)
            };
            // equal under a case-insensitive collation that ignores trailing spaces
            let fold = |x: &str| x.trim_end_matches(' ').to_lowercase();
            if !names.iter().any(|x| fold(x) == fold(&n)) {
                names.push(n);
            }
        }
        let migs: Vec<&'static dyn Migration> = names
            .iter()
            .map(|n| {
                let mut body = || match s.below(5) {
                    0 => Body::Idle,
                    1 => Body::Again,
                    k => Body::One(k as u8 - 1),
                };
                let m = Mig { w: w.clone(), name: Box::leak(n.clone().into_boxed_str()), ver, up: body(), down: body() };
                Box::leak(Box::new(m)) as &'static dyn Migration
            })
            .collect();
        *show += &format!("{ver:?}{names:?} ");
        order.extend(names.into_iter().map(|n| (ver, n)));
        lists.push(MigrationList { version: Version(ver.0, ver.1, ver.2), migrations: Box::leak(migs.into_boxed_slice()) });
    }
    Lists { leaked: Box::leak(lists.into_boxed_slice()), order }
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Fresh,
    Up,
    UpTo(Option<Ver>),
    DownTo(Ver),
    To(Ver),
    OneDown,
}

/// what the `n`th statement that matches is answered with
#[derive(Clone, Copy, Debug, PartialEq)]
enum DbFault {
    /// a statement that writes a record
    Record(u64),
    /// any statement
    Any(u64),
}

fn lock_timeout() -> SrvErr {
    SrvErr::new(1205, "HY000", "Lock wait timeout exceeded; try restarting transaction")
}
fn missing() -> SrvErr {
    SrvErr::new(1051, "42S02", "Unknown table 'app.missing'")
}

#[derive(Debug)]
enum Expect {
    Ok,
    Bool(bool),
    Err(SrvErr),
    Crash,
}

struct Model {
    order: Vec<Key>,
    recorded: BTreeSet<Key>,
    /// ran by the current operation, with the records when it began
    ran: Vec<(bool, Key)>,
    seen: Vec<BTreeSet<Key>>,
    bad: BTreeMap<(bool, Key), Bad>,
    record_fault: Option<u64>,
    records_written: u64,
}
impl Model {
    fn one(&mut self, up: bool, k: &Key) -> Result<(), Expect> {
        self.ran.push((up, k.clone()));
        self.seen.push(self.recorded.clone());
        match self.bad.get(&(up, k.clone())) {
            Some(Bad::Statement) => return Err(Expect::Err(missing())),
            Some(Bad::Crash) => return Err(Expect::Crash),
            None => {}
        }
        let n = self.records_written;
        self.records_written += 1;
        if self.record_fault == Some(n) {
            return Err(Expect::Err(lock_timeout()));
        }
        if up {
            self.recorded.insert(k.clone());
        } else {
            self.recorded.remove(k);
        }
        Ok(())
    }
    fn up(&mut self, to: Option<Ver>) -> Result<(), Expect> {
        for k in self.order.clone() {
            if !self.recorded.contains(&k) && to.is_none_or(|t| k.0 <= t) {
                self.one(true, &k)?;
            }
        }
        Ok(())
    }
    fn down(&mut self, to: Ver) -> Result<(), Expect> {
        for k in self.order.clone().iter().rev() {
            if self.recorded.contains(k) && k.0 > to {
                self.one(false, k)?;
            }
        }
        Ok(())
    }
    fn op(&mut self, op: &Op) -> Expect {
        self.ran.clear();
        self.seen.clear();
        self.records_written = 0;
        let r = match op {
            Op::Fresh => Ok(()),
            Op::Up => self.up(None),
            Op::UpTo(v) => self.up(*v),
            Op::DownTo(v) => self.down(*v),
            Op::To(v) => self.up(Some(*v)).and_then(|_| self.down(*v)),
            Op::OneDown => {
                let k = self.order.iter().rev().find(|k| self.recorded.contains(*k)).cloned();
                match k {
                    None => return Expect::Bool(false),
                    Some(k) => match self.one(false, &k) {
                        Ok(()) => return Expect::Bool(true),
                        Err(e) => Err(e),
                    },
                }
            }
        };
        match r {
            Ok(()) => Expect::Ok,
            Err(e) => e,
        }
    }
}

fn other_table() -> Tab {
    let mut t = Tab::new(vec![ColDef::new("n", Ty::Int(32, false))]);
    t.cols[0].null = true;
    t
}

fn migrations_table(keys: &[Key]) -> Tab {
    let p = parse(
        b"create table `migrations` (`version_0` smallint unsigned not null, `version_1` smallint unsigned not null, `version_2` smallint unsigned not null, `name` varchar(255) not null, `applied_at` datetime not null default current_timestamp, unique (`version_0`, `version_1`, `version_2`, `name`))",
    )
    .unwrap();
    let Stmt::Create { tab: mut t, .. } = p.stmt else { unreachable!() };
    for (v, n) in keys {
        t.rows.push(vec![Value::UShort(v.0), Value::UShort(v.1), Value::UShort(v.2), Value::Bytes(n.as_bytes().to_vec()), now()]);
    }
    t
}

/// `down`: histories that roll back as well
fn histories(s: &mut Src, c: &mut Ctx, down: bool) -> Res {
    let db: Shared_ = Arc::new(Mutex::new(Db::new("app")));
    let w: W = Rc::new(RefCell::new(World { db: db.clone(), ran: vec![], bad: BTreeMap::new(), seen: vec![] }));
    let mut show = String::new();
    let lists = gen_lists(s, &w, &mut show);
    c.note(show);
    // the database as it is found
    let existing = s.chance(if down { 4 } else { 2 }, 5);
    let mut recorded: Vec<Key> = vec![];
    if existing {
        let p = *s.pick(&[2u64, 5, 9, 10]);
        recorded = lists.order.iter().filter(|_| s.chance(p, 10)).cloned().collect();
        // in any order
        for i in (1..recorded.len()).rev() {
            let k = s.usize(i + 1);
            recorded.swap(i, k);
        }
    }
    {
        let mut d = db.lock().unwrap();
        d.shuffle = s.u64();
        d.tables().insert("effects".into(), other_table());
        if existing {
            let mut t = migrations_table(&recorded);
            // a partitioned table has several rows in information_schema.PARTITIONS
            t.partitions = 1 + s.usize(3);
            d.tables().insert("migrations".into(), t);
        }
        if s.chance(1, 3) {
            // somebody else's table of that name
            d.schemas.insert("other".into(), [("migrations".to_string(), migrations_table(&[((1, 0, 0), "foreign".into())]))].into());
        }
    }
    c.note(format!("recorded {recorded:?}"));
    let nops = 1 + s.usize(if down { 6 } else { 5 });
    let mut ops: Vec<(Op, Vec<(bool, Key, Bad)>, Option<DbFault>)> = vec![(Op::Fresh, vec![], None)];
    for _ in 0..nops {
        let ver = |s: &mut Src| -> Ver {
            if !lists.order.is_empty() && s.chance(3, 4) {
                let v = lists.order[s.usize(lists.order.len())].0;
                match s.below(5) {
                    0 => (v.0, v.1, v.2.wrapping_sub(1)),
                    1 => (v.0, v.1.wrapping_add(1), 0),
                    2 => (v.0.wrapping_add(1), 0, 0),
                    _ => v,
                }
            } else {
                gen_ver(s)
            }
        };
        let op = if down {
            match s.below(7) {
                0 => Op::Up,
                1 | 2 => Op::DownTo(ver(s)),
                3 | 4 => Op::To(ver(s)),
                5 => Op::OneDown,
                _ => Op::Fresh,
            }
        } else {
            match s.below(6) {
                0 | 1 => Op::Up,
                2 => Op::UpTo(None),
                3 | 4 => Op::UpTo(Some(ver(s))),
                _ => Op::Fresh,
            }
        };
        let mut bad = vec![];
        if !lists.order.is_empty() && s.chance(1, 3) {
            let k = lists.order[s.usize(lists.order.len())].clone();
            let up = !down || s.bool();
            bad.push((up, k, if s.chance(1, 4) { Bad::Crash } else { Bad::Statement }));
        }
        let fault = match s.below(8) {
            0 => Some(DbFault::Record(s.below(4))),
            1 if op == Op::Fresh => Some(DbFault::Any(s.below(4))),
            _ => None,
        };
        ops.push((op, bad, fault));
    }
    let size = 1 + s.usize(3);
    let plan = IoPlan::gen(s);
    let greeting = if s.bool() { Greeting::default() } else { Greeting { caps: BASE_CAPS, ..Greeting::default() } };
    c.label(format!("{} migrations", if lists.order.len() > 100 { ">100".to_string() } else if lists.order.len() > 6 { ">6".to_string() } else { lists.order.len().to_string() }));
    let mut model = Model { order: lists.order.clone(), recorded: recorded.into_iter().collect(), ran: vec![], seen: vec![], bad: BTreeMap::new(), record_fault: None, records_written: 0 };
    // a session lasts until the process ends
    let mut i = 0;
    while i < ops.len() {
        let mk = || {
            Arc::new(mysql_connector::ConnectionOptions::<Mock<false>> { connection: dial(&db, greeting.clone(), plan.clone()), ..options(&Link::new(Box::new(serve(&db, greeting.clone())), plan.clone())) })
        };
        let r = match size {
            1 => session(AsyncPool::<Connection, _, 1>::new(mk()), &lists, &w, &ops[i..], &mut model, c),
            2 => session(AsyncPool::<Connection, _, 2>::new(mk()), &lists, &w, &ops[i..], &mut model, c),
            _ => session(AsyncPool::<Connection, _, 3>::new(mk()), &lists, &w, &ops[i..], &mut model, c),
        };
        i += r?;
        if i < ops.len() && ops[i].0 != Op::Fresh {
            ops.insert(i, (Op::Fresh, vec![], None));
        }
    }
    if let Some(r) = db.lock().unwrap().refused.first() {
        return fail("sql", format!("the server refuses a statement: {r}"));
    }
    Ok(())
}

/// returns the number of operations done before the process ended
fn session<const N: usize>(pool: AsyncPool<Connection, Mock<false>, N>, lists: &Lists, w: &W, ops: &[(Op, Vec<(bool, Key, Bad)>, Option<DbFault>)], model: &mut Model, c: &mut Ctx) -> Result<usize, Fail> {
    let db = w.borrow().db.clone();
    let r = run(async {
        let mut migrator: Option<Migrator> = None;
        let mut done = 0;
        for (op, bad, fault) in ops {
            // the last attempt to set up a migrator failed
            if migrator.is_none() && *op != Op::Fresh {
                return Ok(done);
            }
            done += 1;
            model.bad = bad.iter().map(|(u, k, b)| ((*u, k.clone()), *b)).collect();
            {
                let mut w = w.borrow_mut();
                w.bad = model.bad.clone();
                w.ran.clear();
                w.seen.clear();
            }
            let fired = Arc::new(Mutex::new(false));
            model.record_fault = None;
            if let Some(f) = *fault {
                let (f2, mut n) = (fired.clone(), 0u64);
                if let DbFault::Record(k) = f {
                    model.record_fault = Some(k);
                }
                db.lock().unwrap().fault = Some(Box::new(move |_text, st| {
                    let (hit, k) = match (f, st) {
                        (DbFault::Any(k), _) => (true, k),
                        (DbFault::Record(k), Stmt::Insert { path, .. } | Stmt::Delete { path, .. } | Stmt::Update { path, .. }) => (path.last().unwrap() == "migrations", k),
                        (DbFault::Record(k), _) => (false, k),
                    };
                    if hit {
                        n += 1;
                        if n == k + 1 {
                            *f2.lock().unwrap() = true;
                            return Some(lock_timeout());
                        }
                    }
                    None
                }));
            }
            let what = format!("{op:?}{}{}", if bad.is_empty() { String::new() } else { format!(" with {bad:?}") }, fault.map_or(String::new(), |f| format!(" with {f:?}")));
            c.note(&what);
            let before = model.recorded.clone();
            let mut want = model.op(op);
            let limit = Duration::from_secs(100_000);
            enum Got {
                Unit(Result<(), Error>),
                Bool(Result<bool, Error>),
                Crash,
            }
            let v = |v: &Ver| Version(v.0, v.1, v.2);
            let got = if *op == Op::Fresh {
                migrator = None;
                match tokio::time::timeout(limit, Migrator::new(&pool, lists.leaked)).await {
                    Err(_) => Got::Crash,
                    Ok(Ok(m)) => {
                        migrator = Some(m);
                        Got::Unit(Ok(()))
                    }
                    Ok(Err(e)) => Got::Unit(Err(e)),
                }
            } else {
                let m = migrator.as_mut().unwrap();
                let f = async {
                    match op {
                        Op::Up => Got::Unit(m.up().await),
                        Op::UpTo(x) => Got::Unit(m.up_to_version(x.as_ref().map(v)).await),
                        Op::DownTo(x) => Got::Unit(m.down_to_version(v(x)).await),
                        Op::To(x) => Got::Unit(m.to_version(v(x)).await),
                        _ => Got::Bool(m.one_down().await),
                    }
                };
                tokio::time::timeout(limit, f).await.unwrap_or(Got::Crash)
            };
            db.lock().unwrap().fault = None;
            if *op == Op::Fresh && *fired.lock().unwrap() {
                want = Expect::Err(lock_timeout());
            }
            let ran = std::mem::take(&mut w.borrow_mut().ran);
            let seen = std::mem::take(&mut w.borrow_mut().seen);
            ensure!(ran == model.ran, "ran", "{what}, recorded {before:?}: ran {ran:?}, expected {:?}", model.ran);
            for (i, (a, b)) in seen.iter().zip(&model.seen).enumerate() {
                ensure!(a == b, "recorded-during", "{what}: when {:?} began, {a:?} were recorded, expected {b:?}", ran[i]);
            }
            match (&got, &want) {
                (Got::Unit(Ok(())), Expect::Ok) => {}
                (Got::Bool(Ok(a)), Expect::Bool(b)) if a == b => {}
                (Got::Unit(Err(e)) | Got::Bool(Err(e)), Expect::Err(x)) if is_err(e, x) => {}
                (Got::Crash, Expect::Crash) => {}
                (Got::Crash, _) => return fail("hang", format!("{what}, recorded {before:?}: does not end")),
                (Got::Unit(x), _) => return fail("result", format!("{what}, recorded {before:?}: returns {x:?}, expected {want:?}")),
                (Got::Bool(x), _) => return fail("result", format!("{what}, recorded {before:?}: returns {x:?}, expected {want:?}")),
            }
            match records(&db) {
                None => ensure!(matches!(want, Expect::Err(_)) && model.recorded.is_empty(), "no-table", "{what}: the migrations table does not exist afterwards"),
                Some(r) => {
                    let set: BTreeSet<Key> = r.iter().cloned().collect();
                    ensure!(set.len() == r.len(), "twice", "{what}: recorded twice: {r:?}");
                    ensure!(set == model.recorded, "records", "{what}, recorded {before:?}: recorded afterwards {set:?}, expected {:?}", model.recorded);
                }
            }
            match want {
                Expect::Err(_) => c.label("failure"),
                Expect::Crash => {
                    c.label("crash");
                    return Ok(done);
                }
                _ => {}
            }
            if !ran.is_empty() {
                c.label(if ran[0].0 { "up" } else { "down" });
                c.nontrivial = true;
            }
        }
        Ok(done)
    });
    match r {
        Ok(r) => r,
        Err(_) => Err(hang("a migrator operation")),
    }
}

fn c22_histories(s: &mut Src, c: &mut Ctx) -> Res {
    histories(s, c, false)
}
fn c23_histories(s: &mut Src, c: &mut Ctx) -> Res {
    histories(s, c, true)
}

// ------------------------------------------------------------ versions and the order of lists

fn c23_versions(s: &mut Src, c: &mut Ctx) -> Res {
    let (a, mut b) = (gen_ver(s), gen_ver(s));
    if s.bool() {
        b.0 = a.0;
        if s.bool() {
            b.1 = a.1;
            if s.chance(1, 3) {
                b.2 = a.2
            }
        }
    }
    c.nontrivial = a != b;
    c.note(format!("{a:?} {b:?}"));
    let (x, y) = (Version(a.0, a.1, a.2), Version(b.0, b.1, b.2));
    let want = a.cmp(&b);
    ensure!(x.cmp(&y) == want && x.partial_cmp(&y) == Some(want), "order", "{x} against {y}: {:?}", x.cmp(&y));
    ensure!((x == y) == (want == Ordering::Equal), "equal", "{x} == {y}: {}", x == y);
    // lists
    let long = s.chance(1, 8);
    let n = if long { s.usize(60) } else { s.usize(5) };
    let mut v: Vec<Ver> = (0..n).map(|_| if !long && s.bool() { *s.pick(&[a, b]) } else { gen_ver(s) }).collect();
    if long || s.bool() {
        v.sort();
    }
    if long || s.chance(1, 3) {
        v.dedup();
    }
    if long && v.len() > 1 {
        // one pair out of order, at most
        let at = s.usize(v.len() - 1);
        match s.below(3) {
            0 => v.swap(at, at + 1),
            1 => v[at + 1] = v[at],
            _ => {}
        }
    }
    let want = v.windows(2).all(|w| w[0] < w[1]);
    c.label(if want { "ordered" } else { "not ordered" });
    let l: Vec<MigrationList> = v.iter().map(|v| MigrationList { version: Version(v.0, v.1, v.2), migrations: &[] }).collect();
    ensure!(MigrationList::ordered(&l) == want, "ordered", "lists with versions {v:?}: ordered() is {}", !want);
    Ok(())
}

// ------------------------------------------------------------ the macro

mysql_connector::simple_migration!(CreateUser, "create table `user` (`id` int unsigned not null auto_increment primary key, `name` varchar(20) not null)", "drop table `user`");
mysql_connector::simple_migration!(Adm1n, "insert into `user` (`name`) values ('admin')", "delete from `user` where `name` = 'admin'");
mysql_connector::simple_migration!(Broken, "insert into `nowhere` values (1)", "drop table `missing`",);
mysql_connector::simple_migration!(Log, "create table log (n int)", "drop table log");

const SIMPLE: [MigrationList; 3] = [
    MigrationList { version: Version(0, 9, 0), migrations: &[&CreateUser, &Adm1n] },
    MigrationList { version: Version(0, 10, 0), migrations: &[&Log] },
    MigrationList { version: Version(1, 0, 0), migrations: &[&Broken] },
];

fn simple(s: &mut Src, c: &mut Ctx, downs: bool) -> Res {
    let db: Shared_ = Arc::new(Mutex::new(Db::new("app")));
    let plan = IoPlan::gen(s);
    let mk = mysql_connector::ConnectionOptions::<Mock<false>> { connection: dial(&db, Greeting::default(), plan.clone()), ..options(&Link::new(Box::new(serve(&db, Greeting::default())), plan.clone())) };
    let pool = AsyncPool::<Connection, _, 1>::new(Arc::new(mk));
    let steps: Vec<u64> = (0..1 + s.usize(5)).map(|_| s.below(if downs { 8 } else { 4 })).collect();
    let fresh: Vec<bool> = steps.iter().map(|_| s.chance(1, 3)).collect();
    c.note(format!("{steps:?}"));
    c.nontrivial = true;
    let r = run(async {
        let mut m = match Migrator::new(&pool, &SIMPLE).await {
            Ok(m) => m,
            Err(e) => return fail("new", format!("{e:?}")),
        };
        // 0 nothing, 1 table, 2 admin, 3 log
        let mut level = 0;
        for (k, f) in steps.iter().zip(fresh) {
            if f {
                m = match Migrator::new(&pool, &SIMPLE).await {
                    Ok(m) => m,
                    Err(e) => return fail("new", format!("{e:?}")),
                };
            }
            let (r, ok): (Result<(), Error>, bool) = match k {
                0 | 1 => {
                    level = 3;
                    (m.up().await, false)
                }
                2 => {
                    level = level.max(2);
                    (m.up_to_version(Some(Version(0, 9, 65535))).await, true)
                }
                3 => {
                    level = 3;
                    (m.up_to_version(Some(Version(0, 10, 0))).await, true)
                }
                4 => {
                    level = 2;
                    (m.to_version(Version(0, 9, 0)).await, true)
                }
                5 => {
                    level = 0;
                    (m.down_to_version(Version(0, 0, 65535)).await, true)
                }
                _ => {
                    // somebody else has dropped the table: rolling its creation back is refused and stays undone
                    let log = db.lock().unwrap().tables().remove("log");
                    let r = match *k {
                        6 => m.down_to_version(Version(0, 9, 0)).await,
                        _ if level == 3 => m.one_down().await.map(|_| ()),
                        _ => Ok(()),
                    };
                    let ok = log.is_none();
                    if let Some(log) = log {
                        db.lock().unwrap().tables().insert("log".into(), log);
                        ensure!(matches!(&r, Err(e) if is_err(e, &SrvErr::new(1051, "42S02", "Unknown table 'app.log'"))), "down-error", "step {k}: {r:?}");
                    }
                    (r, ok)
                }
            };
            ensure!(r.is_ok() == ok, "result", "step {k}: {r:?}");
            if let (0..=5, Err(e)) = (k, &r) {
                ensure!(is_err(e, &SrvErr::new(1146, "42S02", "Table 'app.nowhere' doesn't exist")), "error", "step {k}: {e:?}");
            }
            let d = db.lock().unwrap();
            let users = d.table("user").map(|t| t.rows.len());
            let want = match level {
                0 => (None, false),
                1 => (Some(0), false),
                2 => (Some(1), false),
                _ => (Some(1), true),
            };
            ensure!((users, d.table("log").is_some()) == want, "effects", "step {k}: users {users:?}, log {}", d.table("log").is_some());
            drop(d);
            let names: BTreeSet<String> = records(&db).unwrap_or_default().into_iter().map(|k| k.1).collect();
            let want: BTreeSet<String> = ["CreateUser", "Adm1n", "Log"][..level].iter().map(|s| s.to_string()).collect();
            ensure!(names == want, "names", "step {k}: recorded {names:?}");
        }
        Ok(())
    });
    match r {
        Ok(r) => r,
        Err(_) => Err(hang("a migrator operation")),
    }
}
fn c22_simple(s: &mut Src, c: &mut Ctx) -> Res {
    simple(s, c, false)
}
fn c23_simple(s: &mut Src, c: &mut Ctx) -> Res {
    simple(s, c, true)
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C22",
            level: "exploration",
            rule: "at least one migration ran",
            assumptions: &["a reference database executes the statements", "names that collide case-insensitively or are longer than 255 characters are out of domain", "names with U+001A are excluded (known finding of C16)"],
            parts: vec![part("histories", 40_000, 2_000_000, c22_histories), part("simple", 3_000, 100_000, c22_simple)],
        },
        Prop {
            id: "C23",
            level: "exploration",
            rule: "at least one migration ran; versions: not equal",
            assumptions: &["a reference database executes the statements", "names that collide case-insensitively or are longer than 255 characters are out of domain", "names with U+001A are excluded (known finding of C16)"],
            parts: vec![part("histories", 40_000, 2_000_000, c23_histories), part("versions", 100_000, 3_000_000, c23_versions), part("simple", 3_000, 100_000, c23_simple)],
        },
    ]
}
