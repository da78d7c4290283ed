//! Runs the public extraction functions of mvdparser on given inputs and
//! records what they return.  It decides nothing: the recorded events are
//! validated against the TLA+ specification.
//!
//! runner run IN.jsonl OUT.jsonl API[,API..] [THREADS]
//! runner history IN.jsonl OUT.jsonl API[,API..] THREADS SEED REPEAT shuffle|forward|reverse
//! runner stress IN.jsonl OUT.jsonl API[,API..] THREADS SEED MS
//! runner mass IN.jsonl OUT.jsonl [THREADS]

use std::collections::BTreeMap;
use std::fs;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use chrono::{DateTime, Utc};
use mvdparser::all as m;
use serde_json::{json, Value};

const DEADLINE: Duration = Duration::from_secs(30);

fn cps(s: &str) -> Value {
    Value::from(s.chars().map(|c| c as u32).collect::<Vec<u32>>())
}
fn opt_s(s: &Option<String>) -> Value {
    match s {
        Some(s) => json!([cps(s)]),
        None => json!([]),
    }
}
fn opt_i(s: &Option<i32>) -> Value {
    match s {
        Some(s) => json!([s]),
        None => json!([]),
    }
}
fn cap(v: u64) -> u64 {
    v.min(i32::MAX as u64)
}
fn names(v: &[String]) -> Value {
    Value::from(v.iter().map(|s| cps(s)).collect::<Vec<_>>())
}
fn dur(d: Duration) -> Value {
    json!([cap(d.as_secs()), d.subsec_nanos()])
}
fn time(t: DateTime<Utc>) -> Value {
    let s = t.timestamp();
    match t.timestamp_subsec_nanos() {
        0 => json!([s.div_euclid(86400), s.rem_euclid(86400)]),
        n => json!([s.div_euclid(86400), s.rem_euclid(86400), n]),
    }
}
fn client(c: &m::Client) -> Value {
    json!([c.number, cps(&c.name), cps(&c.team), c.color, c.is_spectator, c.is_bot,
           opt_s(&c.auth_username), opt_s(&c.auth_cc)])
}
fn clients(v: &[m::Client]) -> Value {
    Value::from(v.iter().map(client).collect::<Vec<_>>())
}
fn player(p: &m::Player) -> Value {
    json!([cps(&p.name), cps(&p.team), p.color, p.frags, cap(p.ping as u64), p.is_bot,
           opt_s(&p.auth_username), opt_s(&p.auth_cc)])
}
fn players(v: &[m::Player]) -> Value {
    Value::from(v.iter().map(player).collect::<Vec<_>>())
}
fn team(t: &m::Team) -> Value {
    json!([cps(&t.name), t.color, t.frags, cap(t.ping as u64), players(&t.players)])
}
fn teams(v: &[m::Team]) -> Value {
    Value::from(v.iter().map(team).collect::<Vec<_>>())
}
fn ktx(s: &m::KtxstatsV3) -> Value {
    let ps: Vec<Value> = s
        .players
        .iter()
        .map(|p| {
            json!([cps(&p.name), cps(&p.team), [p.top_color, p.bottom_color], p.stats.frags, p.ping,
                   p.bot.is_some(), cps(&p.login)])
        })
        .collect();
    json!({"version": cap(s.version as u64), "date": time(s.date), "map": cps(&s.map),
           "hostname": cps(&s.hostname), "ip": cps(&s.ip), "port": cap(s.port as u64),
           "mode": cps(&s.mode), "tl": cap(s.tl as u64), "dm": cap(s.dm as u64),
           "tp": cap(s.tp as u64), "duration": cap(s.duration as u64),
           "demo": cps(&s.demo), "teams": names(&s.teams), "players": ps})
}
fn clientinfo(c: &m::Clientinfo) -> Value {
    json!([opt_s(&c.name), opt_s(&c.team), opt_i(&c.topcolor), opt_i(&c.bottomcolor),
           opt_i(&c.spectator), opt_s(&c.auth), opt_s(&c.flag), opt_s(&c.client), opt_i(&c.bot),
           opt_i(&c.chat)])
}
fn settings(s: &m::Settings) -> Value {
    json!([opt_s(&s.admin), opt_i(&s.deathmatch), opt_i(&s.epoch), opt_i(&s.fpd),
           opt_i(&s.fraglimit), opt_s(&s.gamedir), opt_s(&s.hostname), opt_s(&s.ktxmode),
           opt_s(&s.ktxver), opt_s(&s.map), opt_s(&s.matchtag), opt_i(&s.maxclients),
           opt_i(&s.maxfps), opt_i(&s.maxspectators), opt_s(&s.mode), opt_i(&s.needpass),
           opt_i(&s.pm_ktjump), opt_s(&s.progs), opt_s(&s.qvm), opt_s(&s.status),
           opt_s(&s.serverdemo), opt_i(&s.sv_antilag), opt_i(&s.teamplay), opt_i(&s.timelimit),
           opt_s(&s.version), opt_i(&s.z_ext)])
}

const FLAG_FIELDS: [&str; 7] = [
    "captures",
    "pickups",
    "returns",
    "carrier_frags",
    "defends",
    "carrier_defends",
    "carrier_defends_vs_aggressive",
];

/// The counters are private; their Debug output is what a user can see.
fn flag_counts(debug: &str) -> Value {
    let body = debug.split_once('{').map(|(_, b)| b).unwrap_or(debug);
    let mut map: BTreeMap<String, u64> = BTreeMap::new();
    for part in body.trim_end_matches('}').split(',') {
        if let Some((k, v)) = part.split_once(':') {
            if let Ok(n) = v.trim().parse::<u64>() {
                map.insert(k.trim().to_string(), cap(n));
            }
        }
    }
    Value::from(
        FLAG_FIELDS
            .iter()
            .map(|f| json!(map.get(*f).map(|n| *n as i64).unwrap_or(-1)))
            .collect::<Vec<_>>(),
    )
}

fn res<T, E>(r: Result<T, E>, f: impl Fn(&T) -> Value) -> Value {
    match r {
        Ok(v) => json!({"ok": f(&v)}),
        Err(_) => json!({"err": 1}),
    }
}
fn ok(v: Value) -> Value {
    json!({"ok": v})
}

const APIS: [&str; 41] = [
    "prints", "frags", "flags", "pings", "countdown", "demo_dur", "match_dur", "match_seek",
    "match_ktx", "clientinfo", "clientinfo_strings", "clients", "player_clients",
    "spectator_clients", "player_names", "spectator_names", "team_names", "has_bot", "has_human",
    "players", "players_parsing", "players_ktx", "teams", "teams_ktx", "ktx_string", "ktx_v3",
    "server", "serverinfo_string", "serverinfo", "filename", "valid", "has_clients", "has_end",
    "aborted", "paused", "timestamp", "ts_epoch", "matchdate", "matchdate_string",
    "players_sorted", "ktx_team_players",
];

fn call(api: &str, d: &[u8]) -> Value {
    match api {
        "prints" => ok(Value::from(
            m::prints(d)
                .iter()
                .map(|p| {
                    let level = match format!("{:?}", p.id).as_str() {
                        "Low" => 0,
                        "Medium" => 1,
                        "High" => 2,
                        "Chat" => 3,
                        _ => 9,
                    };
                    json!([level, p.content])
                })
                .collect::<Vec<_>>(),
        )),
        "frags" => {
            let sorted: BTreeMap<String, i32> = m::frags_per_player_name(d).into_iter().collect();
            ok(Value::from(
                sorted.iter().map(|(n, f)| json!([cps(n), f])).collect::<Vec<_>>(),
            ))
        }
        "flags" => {
            let sorted: BTreeMap<String, String> = m::flag_events_per_player_name(d)
                .iter()
                .map(|(n, e)| (n.clone(), format!("{:?}", e)))
                .collect();
            ok(Value::from(
                sorted.iter().map(|(n, e)| json!([cps(n), flag_counts(e)])).collect::<Vec<_>>(),
            ))
        }
        "pings" => res(m::ping_per_player_number(d), |p| {
            let sorted: BTreeMap<u8, u32> = p.iter().map(|(a, b)| (*a, *b)).collect();
            Value::from(sorted.iter().map(|(n, p)| json!([n, cap(*p as u64)])).collect::<Vec<_>>())
        }),
        "countdown" => res(m::countdown_duration(d), |v| dur(*v)),
        "demo_dur" => res(m::demo_duration(d), |v| dur(*v)),
        "match_dur" => res(m::match_duration(d), |v| dur(*v)),
        "match_seek" => res(m::match_duration_from_seeking(d), |v| dur(*v)),
        "match_ktx" => res(m::match_duration_from_ktxstats(d), |v| dur(*v)),
        "clientinfo" => res(m::clientinfo(d), |v| {
            Value::from(v.iter().map(clientinfo).collect::<Vec<_>>())
        }),
        "clientinfo_strings" => res(m::clientinfo_strings(d), |v| names(v)),
        "clients" => res(m::clients(d), |v| clients(v)),
        "player_clients" => res(m::player_clients(d), |v| clients(v)),
        "spectator_clients" => res(m::spectator_clients(d), |v| clients(v)),
        "player_names" => res(m::player_names(d), |v| names(v)),
        "spectator_names" => res(m::spectator_names(d), |v| names(v)),
        "team_names" => res(m::team_names(d), |v| names(v)),
        "has_bot" => res(m::has_bot_players(d), |v| json!(v)),
        "has_human" => res(m::has_human_players(d), |v| json!(v)),
        "players" => res(m::players(d), |v| players(v)),
        "players_parsing" => res(m::players_from_parsing(d), |v| players(v)),
        "players_ktx" => res(m::ktxstats_v3(d).and_then(|s| m::players_from_ktxstats(&s)), |v| {
            players(v)
        }),
        "teams" => res(m::teams(d), |v| teams(v)),
        "teams_ktx" => res(m::ktxstats_v3(d).and_then(|s| m::teams_from_ktxstats(&s)), |v| teams(v)),
        "ktx_string" => res(m::ktxstats_string(d), |v| Value::from(v.as_bytes().to_vec())),
        "ktx_v3" => res(m::ktxstats_v3(d), ktx),
        "server" => res(m::server(d), |s| {
            json!([cps(&s.hostname), cps(&s.address), cps(&s.ip), cap(s.port as u64)])
        }),
        "serverinfo_string" => res(m::serverinfo_string(d), |v| cps(v)),
        "serverinfo" => res(m::serverinfo(d), settings),
        "filename" => res(mvdparser::filename(d), |v| cps(v)),
        "valid" => ok(json!(m::is_valid(d))),
        "has_clients" => ok(json!(m::has_clients(d))),
        "has_end" => ok(json!(m::has_end_of_demo_print(d))),
        "aborted" => ok(json!(m::is_aborted(d))),
        "paused" => ok(json!(mvdparser::is_paused(d))),
        "timestamp" => res(m::timestamp(d), |v| time(*v)),
        "ts_epoch" => res(m::timestamp_from_epoch(d), |v| time(*v)),
        "matchdate" => res(m::matchdate(d), |v| time(*v)),
        "matchdate_string" => res(m::matchdate_string(d), |v| Value::from(v.as_bytes().to_vec())),
        _ => panic!("unknown api {api}"),
    }
}

fn str_of(v: &Value) -> String {
    v.as_array()
        .map(|a| a.iter().filter_map(|c| char::from_u32(c.as_u64()? as u32)).collect())
        .unwrap_or_default()
}
fn opt_of(v: &Value) -> Option<String> {
    v.as_array()?.first().map(str_of)
}
fn player_of(v: &Value) -> m::Player {
    let color = [
        v[2][0].as_u64().unwrap_or(0) as u8,
        v[2][1].as_u64().unwrap_or(0) as u8,
    ];
    m::Player {
        name: str_of(&v[0]),
        team: str_of(&v[1]),
        color,
        frags: v[3].as_i64().unwrap_or(0) as i32,
        ping: v[4].as_u64().unwrap_or(0) as u32,
        is_bot: v[5].as_bool().unwrap_or(false),
        auth_username: opt_of(&v[6]),
        auth_cc: opt_of(&v[7]),
    }
}

/// Calls on a list of players instead of demo bytes.
fn call_players(api: &str, ps: &[m::Player]) -> Value {
    match api {
        "teams" => ok(teams(&m::teams_from_players(ps))),
        "team" => ok(team(&m::Team::from(ps))),
        "players_sorted" => {
            let mut v = ps.to_vec();
            v.sort_by(m::sort());
            ok(players(&v))
        }
        _ => panic!("unknown api {api} for players"),
    }
}

fn unhex(s: &str) -> Vec<u8> {
    let n = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
    s.as_bytes().chunks_exact(2).map(|p| n(p[0]) << 4 | n(p[1])).collect()
}

fn data_of(rec: &Value) -> Vec<u8> {
    let mut d = if let Some(h) = rec["hex"].as_str() {
        unhex(h)
    } else if let Some(f) = rec["file"].as_str() {
        fs::read(f).unwrap_or_else(|e| {
            eprintln!("cannot read {f}: {e}");
            std::process::exit(2)
        })
    } else if let Some(runs) = rec["runs"].as_array() {
        // [hex, count]: these bytes, count times
        let mut d = vec![];
        for r in runs {
            let unit = unhex(r[0].as_str().unwrap_or(""));
            d.extend(unit.repeat(r[1].as_u64().unwrap_or(0) as usize));
        }
        d
    } else {
        vec![]
    };
    if let Some(n) = rec["cut"].as_u64() {
        d.truncate(n as usize);
    }
    if let Some(edits) = rec["edits"].as_array() {
        for e in edits {
            let (p, b) = (e[0].as_u64().unwrap() as usize, e[1].as_u64().unwrap() as u8);
            if p < d.len() {
                d[p] = b;
            }
        }
    }
    d
}

static PANIC: Mutex<BTreeMap<usize, String>> = Mutex::new(BTreeMap::new());
thread_local! { static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }

fn guarded(f: impl FnOnce() -> Value) -> Value {
    let slot = SLOT.with(|s| s.get());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => {
            let msg = PANIC.lock().unwrap().remove(&slot).unwrap_or_default();
            json!({"panic": msg})
        }
    }
}

#[derive(Clone)]
struct Busy {
    since: Instant,
    id: Value,
    api: String,
}

struct Shared {
    busy: Vec<Mutex<Option<Busy>>>,
    out: Mutex<BufWriter<fs::File>>,
}

impl Shared {
    fn new(path: &str, threads: usize) -> Arc<Self> {
        let file = fs::File::create(path).expect("create output");
        let s = Arc::new(Shared {
            busy: (0..threads).map(|_| Mutex::new(None)).collect(),
            out: Mutex::new(BufWriter::new(file)),
        });
        let w = s.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(250));
            let hung = w
                .busy
                .iter()
                .filter_map(|b| b.lock().unwrap().clone())
                .find(|b| b.since.elapsed() > DEADLINE);
            if let Some(b) = hung {
                let mut o = w.out.lock().unwrap();
                writeln!(o, "{}", json!({"id": b.id, "hang": b.api})).ok();
                o.flush().ok();
                std::process::exit(3);
            }
        });
        s
    }
    fn enter(&self, slot: usize, id: &Value, api: &str) {
        *self.busy[slot].lock().unwrap() =
            Some(Busy { since: Instant::now(), id: id.clone(), api: api.to_string() });
    }
    /// the next call on the same input
    fn next(&self, slot: usize, api: &str) {
        if let Some(b) = self.busy[slot].lock().unwrap().as_mut() {
            b.since = Instant::now();
            b.api.clear();
            b.api.push_str(api);
        }
    }
    fn leave(&self, slot: usize) {
        *self.busy[slot].lock().unwrap() = None;
    }
    fn line(&self, v: &Value) {
        let mut o = self.out.lock().unwrap();
        writeln!(o, "{v}").expect("write");
        o.flush().ok();
    }
}

fn workers(threads: usize, f: impl Fn(usize) + Send + Sync + 'static) {
    let f = Arc::new(f);
    let hs: Vec<_> = (0..threads)
        .map(|slot| {
            let f = f.clone();
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    SLOT.with(|s| s.set(slot));
                    f(slot)
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        h.join().expect("worker");
    }
}

fn read_lines(path: &str) -> Vec<Value> {
    let f = fs::File::open(path).expect("open input");
    BufReader::new(f)
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).expect("json"))
        .collect()
}

fn run(input: &str, output: &str, apis: &str, threads: usize) {
    let apis: Vec<String> = if apis == "all" {
        APIS[..39].iter().map(|s| s.to_string()).collect()
    } else {
        apis.split(',').map(|s| s.to_string()).collect()
    };
    let recs = Arc::new(read_lines(input));
    let shared = Shared::new(output, threads);
    let next = Arc::new(AtomicUsize::new(0));
    workers(threads, move |slot| loop {
        let k = next.fetch_add(1, Ordering::SeqCst);
        let Some(rec) = recs.get(k) else { return };
        let id = &rec["id"];
        let mut r = serde_json::Map::new();
        let own: Option<Vec<String>> = rec["apis"].as_array().map(|a| {
            a.iter().map(|s| s.as_str().unwrap().to_string()).collect()
        });
        let list = own.as_ref().unwrap_or(&apis);
        if let Some(ps) = rec["players"].as_array() {
            let ps: Vec<m::Player> = ps.iter().map(player_of).collect();
            for api in list {
                shared.enter(slot, id, api);
                r.insert(api.clone(), guarded(|| call_players(api, &ps)));
            }
        } else {
            let d = data_of(rec);
            for api in list {
                shared.enter(slot, id, api);
                r.insert(api.clone(), guarded(|| call(api, &d)));
            }
        }
        shared.leave(slot);
        shared.line(&json!({"id": id, "r": r}));
    });
}

fn xorshift(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}

/// Only checks that calls return; used for large sweeps of cuts and damages.
/// {"id", "hex"|"file", "mode": "cuts"|"bytes"|"random"|"enum", "from", "to", "step", "seed",
///  "count", "letters", "maxlen", "apis"}
/// enum: base followed by every string of at most maxlen letters
fn mass(input: &str, output: &str, threads: usize) {
    let jobs = Arc::new(read_lines(input));
    let shared = Shared::new(output, threads);
    // unit of work: (job, chunk)
    let mut units = vec![];
    for (j, job) in jobs.iter().enumerate() {
        let n = data_of(job).len() as u64;
        let (a, b) = match job["mode"].as_str().unwrap() {
            "random" => (0, job["count"].as_u64().unwrap()),
            "enum" => {
                let k = job["letters"].as_array().unwrap().len() as u64;
                (0, (0..=job["maxlen"].as_u64().unwrap() as u32).map(|n| k.pow(n)).sum())
            }
            _ => (
                job["from"].as_u64().unwrap_or(0),
                job["to"].as_u64().unwrap_or(n + 1).min(n + 1),
            ),
        };
        let step = job["step"].as_u64().unwrap_or(1).max(1);
        let chunk = if n > 100_000 { step } else { 64 * step };
        let mut x = a;
        while x < b {
            units.push((j, x, b.min(x + chunk), step));
            x += chunk;
        }
    }
    let units = Arc::new(units);
    let next = Arc::new(AtomicUsize::new(0));
    let calls = Arc::new(AtomicUsize::new(0));
    let inputs = Arc::new(AtomicUsize::new(0));
    let tally: Arc<Mutex<BTreeMap<String, [u64; 3]>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let (c2, i2, t2, s2) = (calls.clone(), inputs.clone(), tally.clone(), shared.clone());
    workers(threads, move |slot| {
        let mut cached: Option<(usize, Vec<u8>)> = None;
        loop {
            let k = next.fetch_add(1, Ordering::SeqCst);
            let Some(&(j, a, b, step)) = units.get(k) else { return };
            let job = &jobs[j];
            if cached.as_ref().map(|c| c.0) != Some(j) {
                cached = Some((j, data_of(job)));
            }
            let base = &cached.as_ref().unwrap().1;
            let apis: Vec<&str> = match job["apis"].as_array() {
                Some(a) => a.iter().map(|s| s.as_str().unwrap()).collect(),
                None => APIS[..39].to_vec(),
            };
            let mode = job["mode"].as_str().unwrap();
            let letters: Vec<u8> = job["letters"]
                .as_array()
                .map(|l| l.iter().map(|v| v.as_u64().unwrap() as u8).collect())
                .unwrap_or_default();
            let mut counts = vec![[0u64; 3]; apis.len()];
            let mut x = a;
            while x < b {
                let mut tail: Vec<u8> = vec![];
                let mut edits: Vec<(usize, u8)> = vec![];
                let mut cut = base.len();
                let mut seed = job["seed"].as_u64().unwrap_or(1).wrapping_mul(0x9E3779B97F4A7C15) ^ (x + 1).wrapping_mul(0xD1B54A32D192ED03);
                if seed == 0 { seed = 1; }
                for _ in 0..4 { xorshift(&mut seed); }
                match mode {
                    "cuts" => cut = x as usize,
                    "bytes" => {
                        // one damaged byte at position x
                        let vals = [0u8, 1, 2, 3, 5, 6, 7, 8, 9, 14, 34, 36, 92, 127, 128, 255];
                        let v = vals[(xorshift(&mut seed) % 16) as usize];
                        edits.push((x as usize, v));
                    }
                    "enum" => {
                        let (k, mut v) = (letters.len() as u64, x);
                        while v > 0 {
                            v -= 1;
                            tail.push(letters[(v % k) as usize]);
                            v /= k;
                        }
                    }
                    _ => {
                        let n = 1 + xorshift(&mut seed) % 4;
                        for _ in 0..n {
                            let p = (xorshift(&mut seed) % base.len().max(1) as u64) as usize;
                            edits.push((p, xorshift(&mut seed) as u8));
                        }
                        if xorshift(&mut seed) % 3 == 0 {
                            cut = (xorshift(&mut seed) % (base.len() as u64 + 1)) as usize;
                        }
                    }
                }
                let mut d = base[..cut.min(base.len())].to_vec();
                for (p, v) in &edits {
                    if *p < d.len() {
                        d[*p] = *v;
                    }
                }
                d.extend_from_slice(&tail);
                let id = json!({"job": job["id"], "cut": cut, "edits": edits, "tail": tail});
                s2.enter(slot, &id, "");
                for (n, api) in apis.iter().enumerate() {
                    s2.next(slot, api);
                    let v = guarded(|| call(api, &d));
                    c2.fetch_add(1, Ordering::Relaxed);
                    counts[n][if v.get("ok").is_some() {
                        0
                    } else if v.get("err").is_some() {
                        1
                    } else {
                        2
                    }] += 1;
                    if v.get("panic").is_some() {
                        s2.line(&json!({"id": id, "api": api, "r": v}));
                    }
                }
                i2.fetch_add(1, Ordering::Relaxed);
                x += step;
            }
            let mut t = t2.lock().unwrap();
            for (n, api) in apis.iter().enumerate() {
                let e = t.entry(api.to_string()).or_default();
                (0..3).for_each(|i| e[i] += counts[n][i]);
            }
            drop(t);
            s2.leave(slot);
        }
    });
    shared.line(&json!({"done": true, "inputs": inputs.load(Ordering::SeqCst),
        "calls": calls.load(Ordering::SeqCst), "tally": *tally.lock().unwrap()}));
}

/// Calls every function on every input, REPEAT times in every thread, each
/// thread in an order of its own, and records a fingerprint of each result.
/// Calls of one function at a time, MS milliseconds each, by all threads at once, on a
/// few inputs in quick succession; then of all functions at once.  Per thread, the
/// first value of each call and every change of it are recorded.
fn stress(input: &str, output: &str, apis: &str, threads: usize, seed: u64, ms: u64) {
    let apis: Vec<String> = if apis == "all" {
        APIS[..39].iter().map(|s| s.to_string()).collect()
    } else {
        apis.split(',').map(|s| s.to_string()).collect()
    };
    let inputs: Arc<Vec<(Value, Vec<u8>)>> =
        Arc::new(read_lines(input).iter().map(|r| (r["id"].clone(), data_of(r))).collect());
    let shared = Shared::new(output, threads);
    // call -> (thread, position, value), values numbered per call
    type Seen = BTreeMap<(usize, usize), (Vec<String>, Vec<(usize, u64, usize)>)>;
    let seen: Arc<Mutex<Seen>> = Arc::new(Mutex::new(BTreeMap::new()));
    let total = Arc::new(AtomicUsize::new(0));
    let phases = apis.len() + 1;
    let start = Arc::new(std::sync::Barrier::new(threads));
    let (sh, se, names, tot) = (shared.clone(), seen.clone(), apis.clone(), total.clone());
    workers(threads, move |slot| {
        let mut rng = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (slot as u64 + 1).wrapping_mul(0xD1B54A32D192ED03) | 1;
        let mut last: BTreeMap<(usize, usize), String> = BTreeMap::new();
        let mut n = 0u64;
        for phase in 0..phases {
            start.wait();
            let since = Instant::now();
            let span = Duration::from_millis(if phase == names.len() { 4 * ms } else { ms });
            while since.elapsed() < span {
                n += 1;
                let a = if phase < names.len() { phase } else { (xorshift(&mut rng) % names.len() as u64) as usize };
                // the same call a few times, then one on another input
                let k = if n & 1024 == 0 {
                    (n as usize / 3 + slot * 5) % inputs.len()
                } else {
                    (xorshift(&mut rng) % inputs.len() as u64) as usize
                };
                let (id, d) = &inputs[k];
                sh.enter(slot, id, &names[a]);
                let r = guarded(|| call(&names[a], d)).to_string();
                sh.leave(slot);
                if last.get(&(k, a)) != Some(&r) {
                    let mut all = se.lock().unwrap();
                    let e = all.entry((k, a)).or_default();
                    let v = e.0.iter().position(|v| *v == r).unwrap_or_else(|| {
                        e.0.push(r.clone());
                        e.0.len() - 1
                    });
                    if e.1.len() < 1000 {
                        e.1.push((slot, n, v));
                    }
                    last.insert((k, a), r);
                }
            }
        }
        tot.fetch_add(n as usize, Ordering::SeqCst);
    });
    let ids: Vec<Value> = read_lines(input).iter().map(|r| r["id"].clone()).collect();
    for ((k, a), (values, obs)) in seen.lock().unwrap().iter() {
        let values: Vec<Value> = values.iter().map(|v| serde_json::from_str(v).unwrap()).collect();
        let obs: Vec<Value> = obs.iter().map(|(t, n, v)| json!([t, n, v])).collect();
        shared.line(&json!({"call": [ids[*k], apis[*a]], "values": values, "seen": obs}));
    }
    shared.line(&json!({"done": true, "calls": total.load(Ordering::SeqCst)}));
}

fn history(input: &str, output: &str, apis: &str, threads: usize, seed: u64, repeat: usize, order: &str) {
    let apis: Vec<String> = if apis == "all" {
        APIS[..39].iter().map(|s| s.to_string()).collect()
    } else {
        apis.split(',').map(|s| s.to_string()).collect()
    };
    let recs = read_lines(input);
    let inputs: Vec<(Value, Vec<u8>, Vec<m::Player>, Vec<String>)> = recs
        .iter()
        .map(|r| {
            let own = r["apis"].as_array().map(|a| {
                a.iter().map(|s| s.as_str().unwrap().to_string()).collect()
            });
            let ps = r["players"].as_array().map(|p| p.iter().map(player_of).collect());
            (r["id"].clone(), data_of(r), ps.unwrap_or_default(), own.unwrap_or(apis.clone()))
        })
        .collect();
    let is_players: Vec<bool> = recs.iter().map(|r| r["players"].is_array()).collect();
    let (inputs, is_players) = (Arc::new(inputs), Arc::new(is_players));
    let shared = Shared::new(output, threads);
    let seen: Arc<Mutex<BTreeMap<String, Vec<(String, usize, usize)>>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let (sh, se, order) = (shared.clone(), seen.clone(), order.to_string());
    workers(threads, move |slot| {
        let mut calls: Vec<(usize, usize)> = vec![];
        for _ in 0..repeat {
            for (i, inp) in inputs.iter().enumerate() {
                calls.extend((0..inp.3.len()).map(|a| (i, a)));
            }
        }
        let mut rng = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (slot as u64 + 1).wrapping_mul(0xD1B54A32D192ED03) | 1;
        match order.as_str() {
            "reverse" => calls.reverse(),
            // one function after the other, each on similar inputs in a row
            "byapi" => calls.sort_by_key(|(_, a)| *a),
            "forward" => {}
            _ => {
                for i in (1..calls.len()).rev() {
                    calls.swap(i, (xorshift(&mut rng) % (i as u64 + 1)) as usize);
                }
            }
        }
        let mut buffer: Vec<u8> = Vec::with_capacity(inputs.iter().map(|i| i.1.len()).max().unwrap_or(0));
        for (n, (i, a)) in calls.iter().enumerate() {
            let (id, d, ps, own) = &inputs[*i];
            let api = &own[*a];
            sh.enter(slot, id, api);
            let r = if is_players[*i] {
                guarded(|| call_players(api, ps))
            } else {
                buffer.clear();
                buffer.extend_from_slice(d);
                guarded(|| call(api, &buffer))
            };
            sh.leave(slot);
            let key = json!([id, api]).to_string();
            se.lock().unwrap().entry(key).or_default().push((r.to_string(), slot, n));
        }
    });
    for (key, results) in seen.lock().unwrap().iter() {
        let mut values: Vec<&str> = vec![];
        let mut obs = vec![];
        for (r, t, n) in results {
            let k = match values.iter().position(|v| v == r) {
                Some(k) => k,
                None => {
                    values.push(r);
                    values.len() - 1
                }
            };
            obs.push(json!([t, n, k]));
        }
        let key: Value = serde_json::from_str(key).unwrap();
        let values: Vec<Value> = values.iter().map(|v| serde_json::from_str(v).unwrap()).collect();
        shared.line(&json!({"call": key, "values": values, "seen": obs}));
    }
    shared.line(&json!({"done": true}));
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let slot = SLOT.with(|s| s.get());
        if let Ok(mut p) = PANIC.lock() {
            p.insert(slot, info.to_string().replace('\n', " "));
        }
    }));
    let args: Vec<String> = std::env::args().collect();
    let threads = |i: usize| args.get(i).and_then(|s| s.parse().ok()).unwrap_or(8usize);
    match args[1].as_str() {
        "run" => run(&args[2], &args[3], &args[4], threads(5)),
        "history" => history(&args[2], &args[3], &args[4], threads(5), threads(6) as u64, threads(7),
            args.get(8).map(|s| s.as_str()).unwrap_or("shuffle")),
        "stress" => stress(&args[2], &args[3], &args[4], threads(5), threads(6) as u64, threads(7) as u64),
        "mass" => mass(&args[2], &args[3], threads(4)),
        _ => std::process::exit(2),
    }
}
