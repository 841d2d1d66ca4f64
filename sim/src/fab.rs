//! Fabrication of evidence against honest parties, out of everything that anybody signed.

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use manul::session::{Evidence, SessionId};
use serde_json::{json, Value};

use crate::chooser::Chooser;
use crate::forge::forge_m;
use crate::mix::{Body, ErrKind, Kit, KitCfg, DIRECT, ECHO, NORMAL};
use crate::params::{SimFormat, SimSP, Sk, Vk};
use crate::stats::{RunStats, Violation};
use crate::wire::{signed_hash, HexB, MPack, MPart, MRoundId, B64};
use crate::world::panic_text;

#[derive(Default)]
pub struct Pool {
    /// (signer, kind, part)
    pub parts: Vec<(u16, usize, MPart)>,
    pub evidences: Vec<(u16, Value)>,
    pub honest: Vec<u16>,
    pub byz: Vec<u16>,
    pub rounds: Vec<MRoundId>,
}

const KINDS: [&str; 3] = ["InvalidDirectMessage", "InvalidEchoBroadcast", "InvalidNormalBroadcast"];

fn part_paths(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => {
            if m.contains_key("signature") && m.contains_key("message_with_metadata") {
                out.push(at.clone());
            }
            for (k, x) in m {
                part_paths(x, format!("{at}/{k}"), out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                part_paths(x, format!("{at}/{i}"), out);
            }
        }
        _ => {}
    }
}

fn leaf_paths(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => m.iter().for_each(|(k, x)| leaf_paths(x, format!("{at}/{k}"), out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| leaf_paths(x, format!("{at}/{i}"), out)),
        _ => out.push(at),
    }
}

fn val<T: serde::Serialize>(x: &T) -> Value {
    serde_json::to_value(x).unwrap_or(Value::Null)
}

struct Fab<'a> {
    ch: &'a Chooser,
    pool: &'a Pool,
    cfg: &'a KitCfg,
}

impl Fab<'_> {
    fn pick<T: Clone>(&self, v: &[T]) -> Option<T> {
        (!v.is_empty()).then(|| v[self.ch.pick(v.len())].clone())
    }

    fn parts_of(&self, id: u16, f: impl Fn(usize, &MPart) -> bool) -> Vec<(usize, MPart)> {
        self.pool
            .parts
            .iter()
            .filter(|(i, k, p)| *i == id && f(*k, p))
            .map(|(_, k, p)| (*k, p.clone()))
            .collect()
    }

    fn error_kind(&self, round: &MRoundId) -> ErrKind {
        let p = self.ch.pick(3) as u8;
        // Preferably a rule that the round has.
        let n = round.round;
        let specs: Vec<_> = self.cfg.segs.iter().filter(|s| (0..s.rounds.len() as u8).any(|i| s.num(i) == n)).collect();
        if let Some(spec) = self.pick(&specs) {
            let idx = (0..spec.rounds.len() as u8).find(|i| spec.num(*i) == n).unwrap();
            let r = &spec.rounds[idx as usize];
            if r.link.is_some() && self.ch.chance(400) {
                return spec.link_kind(idx);
            }
            if let (Some((a, b)), true) = (r.split, self.ch.chance(400)) {
                return ErrKind::Split { a, b };
            }
            if let (Some((part, prevs)), true) = (&r.sum, self.ch.chance(700)) {
                return spec.sum_kind(*part, prevs);
            }
        }
        match self.ch.pick(8) {
            0 => ErrKind::Code(p),
            1 => ErrKind::Tag(p),
            2 => ErrKind::Sid(p),
            3 => ErrKind::Place(p),
            4 => ErrKind::From(p),
            5 => ErrKind::Link {
                part: p,
                prevs: vec![(self.ch.pick(32) as u8, self.ch.pick(3) as u8)],
            },
            6 => ErrKind::Split {
                a: p,
                b: self.ch.pick(3) as u8,
            },
            _ => ErrKind::Sum {
                part: p,
                prev_nums: (0..1 + self.ch.pick(2)).map(|_| self.ch.pick(32) as u8).collect(),
            },
        }
    }

    fn protocol_evidence<F: SimFormat>(&self, h: u16, sid: &SessionId) -> Option<Value> {
        let (_, main) = self.pick(&self.parts_of(h, |_, _| true))?;
        let meta = main.meta().clone();
        let round = meta.round_id.clone();
        let own = self.parts_of(h, |_, p| p.meta() == &meta);
        let loose = self.ch.chance(250);
        let get = |kind: usize| -> Value {
            let fit: Vec<_> = own
                .iter()
                .filter(|(k, p)| (*k == kind || loose) && p.payload().is_some())
                .cloned()
                .collect();
            match self.pick(&fit) {
                Some((_, p)) if !self.ch.chance(200) => val(&p),
                _ => Value::Null,
            }
        };
        let error = if self.ch.chance(800) {
            F::enc(&self.error_kind(&round))
        } else {
            (0..self.ch.pick(4)).map(|_| self.ch.pick(256) as u8).collect()
        };
        let mut prev: [Vec<Value>; 3] = Default::default();
        let rounds = if self.ch.chance(700) { self.pool.rounds.clone() } else { vec![] };
        for r in &rounds {
            for (kind, prev) in prev.iter_mut().enumerate() {
                let fit = self.parts_of(h, |k, p| {
                    k == kind && &p.meta().round_id == r && (p.meta().session_id == meta.session_id || loose)
                });
                if let Some((_, p)) = self.pick(&fit) {
                    // The round under which the message is filed
                    let key = if self.ch.chance(150) { self.pick(&self.pool.rounds)? } else { r.clone() };
                    prev.push(json!([val(&key), val(&p)]));
                }
            }
        }
        let mut hashes = Vec::new();
        let mut others = Vec::new();
        for r in &rounds {
            let er = MRoundId {
                is_echo: true,
                ..r.clone()
            };
            let packs = self.parts_of(h, |k, p| k == NORMAL && p.meta().round_id == er);
            let Some((_, pack)) = self.pick(&packs) else { continue };
            let inner = pack.payload().and_then(MPack::dec::<F>);
            hashes.push(json!([val(r), val(&pack)]));
            let mut set = Vec::new();
            let ids: Vec<u16> = inner.map(|p| p.message_hashes.iter().map(|x| x.0 .0).collect()).unwrap_or_default();
            for id in ids {
                let fit = self.parts_of(id, |k, p| {
                    (k == ECHO || loose) && &p.meta().round_id == r && p.payload().is_some()
                });
                if let Some((_, p)) = self.pick(&fit) {
                    set.push(json!([val(&Vk(id)), val(&p)]));
                }
            }
            others.push(json!([val(r), set]));
        }
        let _ = sid;
        Some(json!({"Protocol": {
            "error": val(&B64(error.into())),
            "direct_message": get(DIRECT),
            "echo_broadcast": get(ECHO),
            "normal_broadcast": get(NORMAL),
            "direct_messages": prev[DIRECT],
            "echo_broadcasts": prev[ECHO],
            "normal_broadcasts": prev[NORMAL],
            "other_echo_broadcasts": others,
            "echo_hashes": hashes,
            "phantom": null,
        }}))
    }

    fn dest_of<F: SimFormat>(p: &MPart) -> Option<u16> {
        p.payload().and_then(|b| F::dec::<Body>(b)).and_then(|b| b.dest)
    }

    /// Everything that an evidence of a protocol error needs is put in place from the genuine
    /// messages of an honest party, except for one thing, which is some other genuine message.
    fn targeted<F: SimFormat>(&self, h: u16) -> Option<(String, Value)> {
        let mains = self.parts_of(h, |_, p| !p.meta().round_id.is_echo && p.payload().is_some());
        let (_, main) = self.pick(&mains)?;
        let meta = main.meta().clone();
        let groups = meta.round_id.groups.clone();
        let id = |num: u8, is_echo: bool| MRoundId {
            round: num,
            groups: groups.clone(),
            is_echo,
        };
        let error = self.error_kind(&meta.round_id);
        let dest = self
            .pick(&self.parts_of(h, |k, p| k == DIRECT && p.meta() == &meta && p.payload().is_some()))
            .and_then(|(_, p)| Self::dest_of::<F>(&p));
        // The genuine part in its place
        let genuine = |who: u16, kind: usize, round: &MRoundId| -> Option<MPart> {
            let fit = self.parts_of(who, |k, p| {
                k == kind
                    && p.payload().is_some()
                    && &p.meta().round_id == round
                    && p.meta().session_id == meta.session_id
                    && (k != DIRECT || Self::dest_of::<F>(p) == dest)
            });
            self.pick(&fit).map(|(_, p)| p)
        };
        // (what, of whom, kind, round, the part)
        let mut slots: Vec<(&'static str, u16, usize, MRoundId, Option<MPart>)> = Vec::new();
        for kind in [DIRECT, ECHO, NORMAL] {
            let p = genuine(h, kind, &meta.round_id);
            if p.is_some() {
                slots.push(("main", h, kind, meta.round_id.clone(), p));
            }
        }
        match &error {
            ErrKind::Link { prevs, .. } => {
                for (num, kind) in prevs {
                    let r = id(*num, false);
                    let p = genuine(h, *kind as usize, &r);
                    slots.push(("previous", h, *kind as usize, r, p));
                }
            }
            ErrKind::Sum { prev_nums, .. } => {
                for num in prev_nums {
                    let r = id(*num, false);
                    let pack = genuine(h, NORMAL, &id(*num, true));
                    let inner = pack.as_ref().and_then(|p| p.payload()).and_then(MPack::dec::<F>);
                    slots.push(("hashes", h, NORMAL, id(*num, true), pack));
                    for (x, _) in inner.map(|p| p.message_hashes).unwrap_or_default() {
                        let p = genuine(x.0, ECHO, &r);
                        slots.push(("other", x.0, ECHO, r.clone(), p));
                    }
                }
            }
            _ => {}
        }
        let mut what = "protocol error, genuine".to_string();
        if self.ch.chance(950) {
            let pointed: Vec<usize> = (0..slots.len()).filter(|i| slots[*i].0 != "main").collect();
            let i = if !pointed.is_empty() && self.ch.chance(800) {
                pointed[self.ch.pick(pointed.len())]
            } else {
                self.ch.pick(slots.len())
            };
            let (name, who, kind, round, old) = slots[i].clone();
            let session = old.as_ref().map_or(&meta, |p| p.meta()).session_id.clone();
            let mut fit: Vec<(usize, MPart)> = Vec::new();
            // In what the other message differs from what should be there.
            let mode = ["round", "session", "signer", "kind", "destination", "version", "any"][self.ch.weighted(&[5, 4, 3, 2, 2, 2, 1])];
            for (s, k, p) in &self.pool.parts {
                let r = &p.meta().round_id;
                let echo_or_not = name != "hashes" || r.is_echo;
                let same_round = *r == round;
                let same_sid = p.meta().session_id == session;
                let same = match mode {
                    "round" => *s == who && *k == kind && !same_round && echo_or_not,
                    "session" => *s == who && *k == kind && same_round && !same_sid,
                    "signer" => *s != who && *k == kind && same_round,
                    "kind" => *s == who && *k != kind && same_round && same_sid,
                    "destination" => {
                        *s == who && *k == kind && same_round && same_sid && Self::dest_of::<F>(p) != dest && kind == DIRECT
                    }
                    "version" => *s == who && *k == kind && same_round && same_sid && Some(p) != old.as_ref(),
                    _ => true,
                };
                if same && p.payload().is_some() {
                    fit.push((*k, p.clone()));
                }
            }
            let (_, p) = self.pick(&fit)?;
            slots[i].4 = Some(p);
            what = format!("protocol error, {name} message of another {mode}");
        }
        let at = |kind: usize| -> Value {
            slots.iter().find(|s| s.0 == "main" && s.2 == kind).map_or(Value::Null, |s| val(&s.4))
        };
        let prev = |kind: usize| -> Vec<Value> {
            slots
                .iter()
                .filter(|s| s.0 == "previous" && s.2 == kind && s.4.is_some())
                .map(|s| json!([val(&s.3), val(s.4.as_ref().unwrap())]))
                .collect()
        };
        let mut hashes = Vec::new();
        let mut others = Vec::new();
        for pack in slots.iter().filter(|s| s.0 == "hashes") {
            let r = val(&pack.3.main());
            if let Some(p) = &pack.4 {
                hashes.push(json!([r.clone(), val(p)]));
            }
            let set: Vec<Value> = slots
                .iter()
                .filter(|s| s.0 == "other" && s.3 == pack.3.main() && s.4.is_some())
                .map(|s| json!([val(&Vk(s.1)), val(s.4.as_ref().unwrap())]))
                .collect();
            others.push(json!([r, set]));
        }
        Some((
            what,
            json!({"Protocol": {
                "error": val(&B64(F::enc(&error).into())),
                "direct_message": at(DIRECT),
                "echo_broadcast": at(ECHO),
                "normal_broadcast": at(NORMAL),
                "direct_messages": prev(DIRECT),
                "echo_broadcasts": prev(ECHO),
                "normal_broadcasts": prev(NORMAL),
                "other_echo_broadcasts": others,
                "echo_hashes": hashes,
                "phantom": null,
            }}),
        ))
    }

    /// (what was done, the evidence)
    fn make<F: SimFormat>(&self, sid: &SessionId, other_sid: &SessionId) -> Option<(String, Value)> {
        let h = self.pick(&self.pool.honest)?;
        let wrap = |inner: Value| json!({"guilty_party": val(&Vk(h)), "description": "x", "evidence": inner});
        let strategy = self.ch.pick(16);
        let (what, v) = match strategy {
            0 | 1 => {
                let (_, mut e) = self.pick(&self.pool.evidences)?;
                e["guilty_party"] = val(&Vk(h));
                let mut what = "guilty party replaced";
                if self.ch.chance(400) {
                    if let Some(err) = e["evidence"].pointer_mut("/MismatchedBroadcasts/error/guilty_party") {
                        *err = val(&Vk(h));
                        what = "guilty party replaced everywhere";
                    }
                }
                (what.to_string(), e)
            }
            2 => {
                let (_, mut e) = self.pick(&self.pool.evidences)?;
                e["guilty_party"] = val(&Vk(h));
                if let Some(err) = e["evidence"].pointer_mut("/MismatchedBroadcasts/error/guilty_party") {
                    *err = val(&Vk(h));
                }
                let mut paths = Vec::new();
                part_paths(&e, String::new(), &mut paths);
                for path in paths {
                    if self.ch.chance(800) {
                        let old: Option<MPart> = serde_json::from_value(e.pointer(&path)?.clone()).ok();
                        let mut fit = self.parts_of(h, |_, p| Some(p.meta()) == old.as_ref().map(|o| o.meta()));
                        if fit.is_empty() || self.ch.chance(200) {
                            fit = self.parts_of(h, |_, _| true);
                        }
                        if let Some((_, p)) = self.pick(&fit) {
                            *e.pointer_mut(&path)? = val(&p);
                        }
                    }
                }
                ("parts of the honest party put in".into(), e)
            }
            3 => {
                let kind = self.ch.pick(3);
                let any = self.ch.chance(300);
                let (k, p) = self.pick(&self.parts_of(h, |k, _| any || k == kind))?;
                (
                    format!("{} from an honest {k} part", KINDS[kind]),
                    wrap(json!({ KINDS[kind]: val(&p) })),
                )
            }
            4 => {
                let any = self.ch.chance(150);
                let (_, p) = self.pick(&self.parts_of(h, |k, p| any || (k == NORMAL && p.meta().round_id.is_echo)))?;
                let ids: Vec<u16> = p
                    .payload()
                    .and_then(MPack::dec::<F>)
                    .map(|p| p.message_hashes.iter().map(|x| x.0 .0).collect())
                    .unwrap_or_default();
                let id = if self.ch.chance(850) { self.pick(&ids) } else { None };
                let id = id.unwrap_or_else(|| self.ch.pick(self.cfg.n() as usize + 1) as u16);
                (
                    "invalid echo from an honest pack".into(),
                    wrap(json!({"InvalidEcho": {"normal_broadcast": val(&p), "error": {"invalid_echo_sender": val(&Vk(id))}}})),
                )
            }
            5 | 6 => {
                let (_, p) = self.pick(&self.parts_of(h, |k, _| k == ECHO || self.ch.chance(400)))?;
                let same = self.parts_of(h, |_, q| q.meta() == p.meta());
                let (k, q) = if self.ch.chance(800) {
                    self.pick(&same)?
                } else {
                    self.pick(&self.parts_of(h, |_, _| true))?
                };
                let mut hash = signed_hash(&q, k);
                if self.ch.chance(100) {
                    hash.metadata = p.meta().clone();
                }
                if self.ch.chance(60) {
                    hash.message_part_hash = HexB(vec![self.ch.pick(4) as u8; 32].into());
                }
                (
                    "mismatched broadcasts from honest parts".into(),
                    wrap(json!({"MismatchedBroadcasts": {"error": {
                        "guilty_party": val(&Vk(h)), "we_received": val(&p), "echoed_to_us": val(&hash)}}})),
                )
            }
            7 => ("protocol error".into(), wrap(self.protocol_evidence::<F>(h, sid)?)),
            10.. => {
                let (what, v) = self.targeted::<F>(h)?;
                (what, wrap(v))
            }
            8 => {
                // Signed by a misbehaving party or a stranger, filed under the honest one
                let b = self.pick(&self.pool.byz)?;
                let round = self.pick(&self.pool.rounds)?;
                let s = if self.ch.chance(800) { sid } else { other_sid };
                let bytes: Vec<u8> = (0..self.ch.pick(5)).map(|_| self.ch.pick(256) as u8).collect();
                let kind = self.ch.pick(3);
                let mut parts = [None, None, None];
                parts[kind] = Some(bytes);
                let m = forge_m::<F>(&Sk::new(b), s, &round, h, parts, self.ch.salt())?;
                (
                    "garbage signed by somebody else".into(),
                    wrap(json!({ KINDS[kind]: val(m.part(kind)) })),
                )
            }
            _ => {
                // A small change anywhere
                let (_, mut e) = self.pick(&self.pool.evidences)?;
                let mut leaves = Vec::new();
                leaf_paths(&e, String::new(), &mut leaves);
                let path = self.pick(&leaves)?;
                let v = e.pointer_mut(&path)?;
                match v {
                    Value::String(s) if !s.is_empty() => {
                        let mut b = s.clone().into_bytes();
                        let i = self.ch.pick(b.len());
                        b[i] = b"0123456789abcdefABCDEF"[self.ch.pick(22)];
                        *s = String::from_utf8(b).ok()?;
                    }
                    Value::Number(n) => *v = json!(n.as_u64().unwrap_or(0) ^ (1 << self.ch.pick(5))),
                    Value::Bool(b) => *b = !*b,
                    Value::Null => {
                        let p = self.pick(&self.pool.parts)?;
                        *v = val(&p.2);
                    }
                    _ => return None,
                }
                (format!("altered at {path}"), e)
            }
        };
        Some((what, v))
    }
}

pub fn attack<K: Kit, F: SimFormat>(
    ch: &Chooser,
    cfg: &Arc<KitCfg>,
    sid: &SessionId,
    other_sid: &SessionId,
    pool: &Pool,
    stats: &mut RunStats,
) -> (Vec<Violation>, Vec<String>) {
    let shared = K::shared(cfg);
    let fab = Fab { ch, pool, cfg };
    let mut viols: Vec<Violation> = Vec::new();
    let mut trace = Vec::new();
    for _ in 0..48 {
        let Some((what, v)) = (0..4).find_map(|_| fab.make::<F>(sid, other_sid)) else {
            stats.add("fabrications_skipped", 1);
            continue;
        };
        let class: String = what.split(" at /").next().unwrap_or("").into();
        let res = catch_unwind(AssertUnwindSafe(|| {
            let ev: Evidence<K::P, SimSP<F>> = match serde_json::from_value(v.clone()) {
                Ok(ev) => ev,
                Err(_) => return None,
            };
            let mut out = vec![(*ev.guilty_party(), ev.verify(&shared).map_err(|e| format!("{e:?}")))];
            // Damaged in binary form
            if let Ok(mut bin) = postcard::to_allocvec(&ev) {
                if !bin.is_empty() && ch.chance(200) {
                    let i = ch.pick(bin.len());
                    bin[i] ^= 1 << ch.pick(8);
                    if let Ok(ev) = postcard::from_bytes::<Evidence<K::P, SimSP<F>>>(&bin) {
                        out.push((*ev.guilty_party(), ev.verify(&shared).map_err(|e| format!("{e:?}"))));
                    }
                }
            }
            Some(out)
        }));
        match res {
            Err(e) => {
                let text = panic_text(e);
                trace.push(format!("fabricated evidence ({what}): {v}"));
                viols.push(Violation {
                    props: vec!["P07"],
                    kind: "panic in evidence verification".into(),
                    detail: format!("fabricated evidence ({what}): {text}"),
                });
            }
            Ok(None) => stats.add("fabrications_unreadable", 1),
            Ok(Some(out)) => {
                for (g, r) in out {
                    stats.add("fabrications_verified", 1);
                    if pool.honest.contains(&g.0) {
                        stats.add(&format!("fabricated[{class}]"), 1);
                        if r.is_ok() {
                            trace.push(format!("fabricated evidence ({what}): {v}"));
                            viols.push(Violation {
                                props: vec!["P07"],
                                kind: "fabricated evidence convicts an honest party".into(),
                                detail: format!("{what}: against {g:?}"),
                            });
                        }
                    }
                }
            }
        }
        if viols.len() > 3 {
            break;
        }
    }
    (viols, trace)
}
