//! Which workloads decide which property, and how many cases of each.
use crate::close;
use crate::conf;
use crate::fault;
use crate::flow;
use crate::hostile::{self, Mode};
use crate::limits;
use crate::mem;
use crate::pair::{self, Flavor};
use crate::press;
use crate::race;
use crate::runner::{Ctx, Family, Plan};

pub static FAMILIES: &[Family] = &[
    ("pair-mix", |c: &mut Ctx| pair::run(c, Flavor::Mix)),
    ("pair-close", |c: &mut Ctx| pair::run(c, Flavor::Close)),
    ("pair-wake", |c: &mut Ctx| pair::run(c, Flavor::Wake)),
    ("pair-bulk", |c: &mut Ctx| pair::run(c, Flavor::Bulk)),
    ("pair-drops", |c: &mut Ctx| pair::run(c, Flavor::Drops)),
    ("pair-fair", |c: &mut Ctx| pair::run(c, Flavor::Fair)),
    ("pair-shut", |c: &mut Ctx| pair::run(c, Flavor::Shut)),
    ("pair-cut", |c: &mut Ctx| pair::run(c, Flavor::Cut)),
    ("peer-valid", |c: &mut Ctx| hostile::run(c, Mode::Valid)),
    ("peer-violate", |c: &mut Ctx| hostile::run(c, Mode::Violate)),
    ("peer-limit", |c: &mut Ctx| hostile::run(c, Mode::Limit)),
    ("peer-free", |c: &mut Ctx| hostile::run(c, Mode::Free)),
    ("peer-frag", hostile::frag),
    ("close-peer", close::solo),
    ("close-pair", close::duo),
    ("flow-recv", flow::recv),
    ("flow-send", flow::send),
    ("flow-giant", flow::giant),
    ("conf-set", conf::setters),
    ("conf-work", conf::work),
    ("limit-backlog", limits::backlog),
    ("limit-ids", limits::ids),
    ("limit-slots", limits::slots),
    ("limit-many", limits::many),
    ("mem-flood", mem::flood),
    ("mem-huge", mem::huge),
    ("mem-held", mem::held),
    ("mem-churn", mem::churn),
    ("mem-leak", mem::leak),
    ("press-block", press::block),
    ("press-fair", press::fair),
    ("press-stuck", press::stuck),
    ("press-ping", press::ping),
    ("race-grow", |c: &mut Ctx| drill(c, race::grow)),
    ("race-credit", |c: &mut Ctx| drill(c, race::credit)),
    ("race-data", |c: &mut Ctx| drill(c, race::data_in)),
    ("race-end", |c: &mut Ctx| drill(c, race::end)),
    ("race-goodbye", |c: &mut Ctx| drill(c, race::goodbye)),
    ("race-turns", |c: &mut Ctx| drill(c, race::turns)),
    ("fault-pair", |c: &mut Ctx| fault::run(c, false)),
    ("fault-peer", |c: &mut Ctx| fault::run(c, true)),
];

fn drill(c: &mut Ctx, f: fn(u64, &race::Env) -> race::Out) {
    let o = f(c.seed, &race::Env { set: Some(crate::vclock::set), small: false, beat: crate::runner::heartbeat, enter: |_| {} });
    for (k, n) in &o.cov {
        c.hit(k, *n)
    }
    c.cov_hash(o.hash);
    for (p, m) in o.finds {
        c.find(p, m)
    }
}

const RULE: &str = "each case is one seeded simulation on the real crate (family name, seed); non-trivial when the trace contains the events this property speaks of";

pub fn plan(id: &str) -> Option<Plan> {
    let p = |id, fams: &[(&'static str, u64)], relevant, rule| {
        let level = match id {
            "C17" | "C18" => "fault_enumeration",
            _ => "exploration",
        };
        // Every check also runs some cases of all other families: whatever they find for this property counts.
        let mut fams = fams.to_vec();
        if id != "ALL" {
            for f in FAMILIES {
                if fams.iter().all(|x| x.0 != f.0) {
                    let n = match f.0 {
                        "flow-giant" => 3,
                        "close-pair" | "mem-leak" | "pair-fair" | "limit-many" | "flow-send" | "pair-wake" | "pair-bulk" | "fault-peer" => 40,
                        _ => 150,
                    };
                    fams.push((f.0, n))
                }
            }
        }
        Some(Plan { id, fams, relevant, level, rule })
    };
    match id {
        "C01" => p(
            "C01",
            &[("pair-mix", 500), ("pair-bulk", 120), ("pair-close", 400), ("pair-wake", 120), ("peer-valid", 6000), ("flow-send", 100), ("flow-recv", 800), ("press-fair", 300), ("race-data", 300)],
            &[&["bytes_read", "bytes_written"], &["data_ends"]],
            RULE,
        ),
        "C02" => p(
            "C02",
            &[("pair-close", 700), ("pair-mix", 250), ("pair-shut", 1500), ("peer-valid", 8000), ("peer-free", 500), ("close-peer", 250), ("close-pair", 250), ("race-data", 200), ("race-end", 1500), ("race-turns", 400)],
            &[&["eofs"], &["data_after_end"], &["data_ends"], &["end_rounds"], &["turns_rounds"]],
            RULE,
        ),
        "C03" => p(
            "C03",
            &[("pair-wake", 500), ("pair-mix", 200), ("pair-close", 200), ("pair-drops", 150), ("flow-send", 150), ("limit-backlog", 600), ("press-block", 600), ("press-stuck", 600), ("press-ping", 500), ("peer-valid", 3000), ("close-pair", 200), ("close-peer", 200), ("pair-cut", 1500), ("fault-pair", 300), ("race-credit", 200), ("race-data", 300), ("race-end", 2500), ("race-turns", 400)],
            &[&["read_pending"], &["write_pending"], &["open_pending"], &["close_pending"], &["credit_rests"], &["data_rests"], &["end_rounds"], &["turns_rounds"]],
            RULE,
        ),
        "C04" => p(
            "C04",
            &[("flow-send", 700), ("pair-bulk", 150), ("pair-mix", 200), ("peer-valid", 8000), ("press-block", 500), ("press-fair", 300), ("race-credit", 500)],
            &[&["credit_exhausted"], &["credit_rx", "bytes_tx"], &["credit_rests"]],
            RULE,
        ),
        "C05" => p(
            "C05",
            &[("flow-recv", 6000), ("pair-bulk", 150), ("pair-mix", 250), ("peer-valid", 8000), ("peer-limit", 3000), ("press-stuck", 500), ("fault-pair", 200), ("flow-giant", 6), ("race-data", 300)],
            &[&["updates"], &["updates_predicted"], &["data_ends"]],
            RULE,
        ),
        "C06" => p(
            "C06",
            &[("flow-recv", 10_000), ("pair-bulk", 150), ("pair-mix", 150), ("pair-drops", 150), ("mem-churn", 200), ("flow-giant", 12), ("race-grow", 800)],
            &[&["windows_doubled"], &["windows_capped"], &["windows_kept"], &["grow_contended"]],
            RULE,
        ),
        "C07" => p(
            "C07",
            &[("peer-violate", 8000), ("peer-limit", 3000), ("peer-valid", 5000), ("flow-recv", 5000), ("pair-bulk", 80), ("mem-flood", 200), ("flow-giant", 6)],
            &[&["violations"], &["window_filled"]],
            RULE,
        ),
        "C08" => p(
            "C08",
            &[("peer-free", 4000), ("peer-frag", 12_000), ("peer-violate", 5000), ("peer-limit", 3000), ("peer-valid", 3000), ("mem-flood", 200), ("mem-huge", 500), ("fault-peer", 400), ("close-peer", 200)],
            &[&["free_bytes"], &["refragmented"], &["violations"]],
            RULE,
        ),
        "C09" => p("C09", &[("peer-violate", 22_000), ("peer-limit", 2000), ("limit-ids", 2000)], &[&["violations", "goaways"]], RULE),
        "C10" => p(
            "C10",
            &[("mem-flood", 1200), ("mem-huge", 4000), ("mem-held", 400), ("mem-churn", 1200), ("mem-leak", 60), ("peer-limit", 4000), ("press-block", 1000)],
            &[&["floods"], &["too_large"], &["churned"], &["held_measured"], &["leak_checks"], &["blocked_rounds"]],
            RULE,
        ),
        "C11" => p(
            "C11",
            &[("pair-mix", 250), ("pair-close", 200), ("pair-drops", 200), ("peer-valid", 6000), ("peer-violate", 2000), ("peer-limit", 2000), ("peer-free", 600), ("flow-send", 150), ("press-block", 800), ("press-fair", 400), ("limit-backlog", 400), ("close-peer", 150)],
            &[&["frames_tx"]],
            RULE,
        ),
        "C12" => p(
            "C12",
            &[("pair-close", 500), ("pair-drops", 300), ("pair-mix", 150), ("peer-valid", 8000), ("limit-backlog", 800), ("close-peer", 300), ("close-pair", 200), ("pair-shut", 1500), ("press-block", 500), ("race-end", 1500), ("race-turns", 800)],
            &[&["opened", "frames_tx"], &["accepted", "frames_tx"], &["end_rounds"], &["turns_rounds"]],
            RULE,
        ),
        "C13" => p(
            "C13",
            &[("limit-ids", 20_000), ("limit-many", 20), ("pair-drops", 200), ("pair-mix", 150), ("limit-slots", 4000), ("limit-backlog", 1000), ("peer-violate", 4000), ("mem-churn", 300)],
            &[&["ids_exhausted"], &["opened"]],
            RULE,
        ),
        "C14" => p(
            "C14",
            &[("limit-slots", 25_000), ("limit-many", 60), ("peer-limit", 4000), ("pair-drops", 300), ("limit-backlog", 1000), ("mem-churn", 800)],
            &[&["opens_refused"], &["remote_refused"], &["opens_granted"], &["drops"]],
            RULE,
        ),
        "C15" => p("C15", &[("limit-backlog", 12_000), ("pair-wake", 150), ("close-pair", 300), ("fault-pair", 300)], &[&["backlog_triggers"], &["openers_failed"]], RULE),
        "C16" => p(
            "C16",
            &[("close-peer", 800), ("close-pair", 800), ("pair-shut", 6000), ("pair-close", 100), ("fault-pair", 300), ("race-end", 1000), ("race-goodbye", 150)],
            &[&["closes_succeeded", "opened"], &["closes_succeeded", "accepted"], &["closing_flooded"], &["goaway_while_closing"], &["end_rounds"], &["goodbye_rounds"]],
            RULE,
        ),
        "C17" => p(
            "C17",
            &[("fault-pair", 2000), ("fault-peer", 1500), ("pair-cut", 6000), ("close-pair", 300), ("peer-violate", 2000), ("peer-free", 400), ("race-end", 1500)],
            &[&["faults_hit"], &["ends_checked"], &["ends", "opened"], &["ends", "accepted"], &["end_rounds"]],
            "each case injects one transport fault (kind, direction, byte offset, poll) or peer failure into a running simulation; non-trivial when the fault was reached or the ends were audited",
        ),
        "C18" => p(
            "C18",
            &[("fault-pair", 2500), ("fault-peer", 2000), ("pair-cut", 4000), ("pair-shut", 1500)],
            &[&["faults_hit"], &["write_errors"]],
            "each case injects one transport fault (kind, direction, byte offset, poll) into a running simulation; non-trivial when the fault was reached",
        ),
        "C19" => p(
            "C19",
            &[("pair-drops", 700), ("mem-leak", 250), ("mem-churn", 1200), ("limit-slots", 4000), ("peer-valid", 5000), ("pair-mix", 100), ("press-block", 500), ("race-end", 2500), ("race-turns", 500)],
            &[&["drops"], &["leak_checks"], &["churned"], &["end_rounds"], &["turns_rounds"]],
            RULE,
        ),
        "C20" => p(
            "C20",
            &[("press-ping", 12_000), ("peer-valid", 8000), ("peer-violate", 2000), ("press-stuck", 500), ("press-fair", 600), ("pair-mix", 100), ("close-peer", 200)],
            &[&["pongs"], &["rtts"], &["ping_intervals"]],
            RULE,
        ),
        "C21" => p("C21", &[("press-fair", 2000), ("press-stuck", 2500), ("pair-fair", 200), ("pair-bulk", 60)], &[&["busy_streams"], &["unhindered"]], RULE),
        "C22" => p("C22", &[("press-block", 9000), ("pair-mix", 200), ("press-fair", 500), ("pair-bulk", 80), ("mem-flood", 300)], &[&["suspended_by_transport"], &["queues_measured"], &["writer_suspended"]], RULE),
        "C24" => p("C24", &[("close-peer", 700), ("close-pair", 500), ("pair-cut", 6000), ("pair-shut", 4000), ("fault-pair", 600), ("race-end", 1000)], &[&["reads_after_end"], &["cut_off"], &["ends_checked"], &["end_rounds"]], RULE),
        "C25" => p("C25", &[("pair-mix", 250), ("pair-close", 350), ("pair-drops", 150), ("peer-valid", 8000), ("close-peer", 250), ("close-pair", 200), ("limit-backlog", 500), ("fault-pair", 300), ("race-turns", 1500)], &[&["queries"], &["turns_states"]], RULE),
        "C26" => p(
            "C26",
            &[("pair-wake", 300), ("pair-mix", 150), ("pair-close", 100), ("pair-fair", 60), ("press-block", 1500), ("press-fair", 400), ("press-stuck", 800), ("press-ping", 2500), ("peer-valid", 6000), ("flow-recv", 3000), ("flow-send", 150), ("limit-backlog", 2500), ("close-pair", 200), ("close-peer", 200), ("pair-shut", 1500), ("pair-cut", 2000), ("fault-pair", 300)],
            &[&["updates"], &["read_pending"], &["write_pending"], &["pongs"], &["close_pending"], &["suspended_by_transport"]],
            RULE,
        ),
        "C27" => p(
            "C27",
            &[("conf-set", 2000), ("conf-work", 2500), ("flow-recv", 3000), ("flow-giant", 6), ("limit-slots", 6000), ("limit-many", 50), ("limit-backlog", 500), ("close-peer", 200), ("close-pair", 150), ("pair-cut", 2000), ("pair-shut", 1000), ("peer-limit", 2000), ("press-fair", 200), ("pair-bulk", 40)],
            &[&["settings_accepted", "settings_refused"], &["configurations"], &["updates_predicted"], &["opens_refused"], &["remote_refused"], &["reads_after_end"], &["many_streams"]],
            RULE,
        ),
        "ALL" => {
            let only = std::env::var("YV_FAM").unwrap_or_default();
            let f: Vec<(&'static str, u64)> = FAMILIES.iter().filter(|f| f.0.starts_with(&only)).map(|f| (f.0, 200)).collect();
            p("ALL", &f, &[&["frames_tx"]], "survey")
        }
        _ => None,
    }
}
