//! Random generation of protocol specifications, and the check that a specification is within
//! the contract of the library: no party can run more than one round ahead of a party that it
//! sends a message to.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use crate::chooser::Chooser;
use crate::mix::{EchoPart, KitCfg, LinkRule, RoundSpec, Spec, DIRECT, ECHO, NORMAL};

/// What kind of specifications to generate.
#[derive(Debug, Clone)]
pub struct Shape {
    pub segs: usize,
    pub entry_masks: [Option<u8>; 6],
    pub n_min: u16,
    pub n_max: u16,
    pub layers_max: usize,
    /// Permille of rounds with a partial topology.
    pub partial: u32,
    /// Permille of echo rounds where none is demanded by the types.
    pub echo: u32,
    pub branch: u32,
    pub early: u32,
    pub rules: u32,
}

impl Shape {
    pub fn new(segs: usize, entry_masks: [Option<u8>; 6]) -> Self {
        Self {
            segs,
            entry_masks,
            n_min: 2,
            n_max: 5,
            layers_max: match segs {
                1 => 4,
                2 | 3 => 3,
                _ => 2,
            },
            partial: 450,
            echo: 500,
            branch: 250,
            early: 150,
            rules: 500,
        }
    }
}

fn pick_mask(ch: &Chooser, shape: &Shape) -> u8 {
    let echo = ch.chance(shape.echo);
    let base = [1u8, 4, 5, 0][ch.weighted(&[4, 4, 4, 1])];
    if echo {
        base | 2
    } else {
        base
    }
}

fn empty_round(n: u16, mask: u8) -> RoundSpec {
    RoundSpec {
        mask,
        dests: vec![BTreeSet::new(); n as usize],
        echo_s: BTreeSet::new(),
        echo_r: BTreeSet::new(),
        parents: BTreeSet::new(),
        siblings: BTreeSet::new(),
        children: BTreeSet::new(),
        may_result: false,
        link: None,
        split: None,
        sum: None,
    }
}

fn fill_topology(ch: &Chooser, shape: &Shape, r: &mut RoundSpec, q: &BTreeSet<u16>, full: bool) {
    let list: Vec<u16> = q.iter().copied().collect();
    let partial = !full && ch.chance(shape.partial);
    if r.has(ECHO) {
        let (s, rr): (BTreeSet<u16>, BTreeSet<u16>) = if partial {
            let s: BTreeSet<u16> = ch.subset(&list, 650).into_iter().collect();
            let rr: BTreeSet<u16> = match ch.pick(3) {
                0 => q.clone(),
                1 => ch.subset(&list, 700).into_iter().collect(),
                // The receivers are a subset of the senders or the other way round.
                _ => ch.subset(&s.iter().copied().collect::<Vec<_>>(), 800).into_iter().collect(),
            };
            (s, rr)
        } else {
            (q.clone(), q.clone())
        };
        for x in &s {
            r.dests[*x as usize] = rr.iter().copied().filter(|y| y != x).collect();
        }
        r.echo_s = s;
        r.echo_r = rr;
    } else {
        for x in &list {
            let others: Vec<u16> = list.iter().copied().filter(|y| y != x).collect();
            r.dests[*x as usize] = if partial {
                ch.subset(&others, 600).into_iter().collect()
            } else {
                others.into_iter().collect()
            };
        }
    }
}

fn gen_spec(ch: &Chooser, shape: &Shape, n: u16, seg: usize, full: bool) -> Spec {
    let last_seg = seg + 1 == shape.segs;
    let layers = 1 + ch.pick(shape.layers_max);
    let linear = matches!(shape.entry_masks[seg], None | Some(1)) && ch.chance(100);
    // What the numbers of linear rounds say about their parts
    let mask_of = |idx: usize| if linear { Some((idx as u8 + 1) & 7) } else { None };
    let mut rounds: Vec<RoundSpec> = Vec::new();
    let mut layer_rounds: Vec<Vec<u8>> = Vec::new();
    for l in 0..layers {
        let mask = match (l, seg) {
            (0, s) if shape.entry_masks[s].is_some() => shape.entry_masks[s].unwrap(),
            _ => pick_mask(ch, shape),
        };
        let idx = rounds.len() as u8;
        rounds.push(empty_round(n, mask_of(idx as usize).unwrap_or(mask)));
        let mut ids = vec![idx];
        if l > 0 && ch.chance(shape.branch) {
            let mask = pick_mask(ch, shape);
            rounds.push(empty_round(n, mask_of(rounds.len()).unwrap_or(mask)));
            ids.push(idx + 1);
        }
        layer_rounds.push(ids);
    }
    // Transitions
    for l in 0..layers {
        for i in &layer_rounds[l] {
            let r = &mut rounds[*i as usize];
            if l > 0 {
                r.parents = layer_rounds[l - 1].iter().copied().collect();
            }
            if l + 1 < layers {
                r.children = layer_rounds[l + 1].iter().copied().collect();
            }
            r.siblings = layer_rounds[l].iter().copied().filter(|j| j != i).collect();
            r.may_result = l + 1 == layers;
        }
    }
    // Paths
    let mut paths: Vec<Vec<u8>> = vec![Vec::new(); n as usize];
    let mut alive: BTreeSet<u16> = (0..n).collect();
    let mut meet: Option<(usize, Vec<u8>)> = None;
    for l in 0..layers {
        let ids = &layer_rounds[l];
        let last = l + 1 == layers;
        if l > 0 && last_seg {
            let mut stop = BTreeSet::new();
            for x in alive.iter() {
                if ch.chance(shape.early / 2) {
                    stop.insert(*x);
                }
            }
            for x in &stop {
                alive.remove(x);
                let p = *paths[*x as usize].last().unwrap();
                rounds[p as usize].may_result = true;
            }
        }
        if ids.len() == 1 {
            for x in &alive {
                paths[*x as usize].push(ids[0]);
            }
        } else if last && last_seg && ch.chance(600) {
            for x in &alive {
                paths[*x as usize].push(ids[ch.pick(2)]);
            }
        } else if l > 0 && l + 2 == layers && last_seg && !full && ch.chance(500) {
            // The branches meet again in the last rounds.
            for x in &alive {
                paths[*x as usize].push(ids[ch.pick(2)]);
            }
            meet = Some((l, ids.clone()));
        } else {
            let i = ids[ch.pick(2)];
            for x in &alive {
                paths[*x as usize].push(i);
            }
        }
    }
    // Topologies
    for i in 0..rounds.len() {
        let q: BTreeSet<u16> = (0..n).filter(|x| paths[*x as usize].contains(&(i as u8))).collect();
        let mut r = rounds[i].clone();
        match &meet {
            Some((l, ids)) if layer_rounds[l + 1].contains(&(i as u8)) => {
                // Those who come from different branches may be too far apart to write to each other.
                let from = |b: u8| q.iter().copied().filter(|x| paths[*x as usize].contains(&b)).collect();
                let sides: [BTreeSet<u16>; 2] = [from(ids[0]), from(ids[1])];
                let k = if r.has(ECHO) { (sides[0].len() < sides[1].len()) as usize } else { 0 };
                fill_topology(ch, shape, &mut r, &sides[k], full);
                if !r.has(ECHO) {
                    fill_topology(ch, shape, &mut r, &sides[1 - k], full);
                }
            }
            _ => fill_topology(ch, shape, &mut r, &q, full),
        }
        // Some send to parties which went down the other branch.
        if !r.siblings.is_empty() {
            let sib = *r.siblings.iter().next().unwrap();
            let other: Vec<u16> = (0..n).filter(|x| paths[*x as usize].contains(&sib)).collect();
            let usual = if meet.is_some() { 800 } else { 400 };
            if !q.is_empty() && !other.is_empty() && ch.chance(usual) {
                for x in &q {
                    // (those who take part in an echo round expect all their destinations there)
                    if !r.has(ECHO) || (r.echo_s.contains(x) && !r.echo_r.contains(x)) {
                        let more = ch.subset(&other, 500);
                        r.dests[*x as usize].extend(more);
                    }
                }
            }
        }
        rounds[i] = r;
    }
    let mut spec = Spec {
        n,
        tag: 0x7a60 + seg as u64 + 16 * (ch.salt() % 1000),
        rounds,
        paths,
        flip: !linear && ch.chance(250),
        linear,
    };
    add_rules(ch, shape, &mut spec);
    spec
}

fn pairs(spec: &Spec, idx: u8) -> Vec<(u16, u16)> {
    (0..spec.n)
        .filter(|x| spec.on_path(*x, idx))
        .flat_map(|x| spec.dests(idx, x).into_iter().map(move |y| (x, y)))
        .collect()
}

fn add_rules(ch: &Chooser, shape: &Shape, spec: &mut Spec) {
    for idx in 0..spec.rounds.len() as u8 {
        let mask = spec.rounds[idx as usize].mask;
        let parts: Vec<usize> = [DIRECT, ECHO, NORMAL].into_iter().filter(|p| mask & (1 << p) != 0).collect();
        if parts.is_empty() {
            continue;
        }
        let ps = pairs(spec, idx);
        if ps.is_empty() {
            continue;
        }
        if ch.chance(shape.rules) {
            let mut cands = Vec::new();
            for prev in 0..idx {
                let pp: BTreeSet<(u16, u16)> = pairs(spec, prev).into_iter().collect();
                // A spilled message is not received by anybody.
                if !ps
                    .iter()
                    .all(|(x, y)| pp.contains(&(*x, *y)) && spec.on_path(*y, prev) && spec.on_path(*x, prev))
                {
                    continue;
                }
                for prev_part in [DIRECT, ECHO, NORMAL] {
                    if spec.rounds[prev as usize].has(prev_part) {
                        cands.push((prev, prev_part as u8));
                    }
                }
            }
            let part = parts[ch.pick(parts.len())];
            cands.retain(|(_, pp)| *pp as usize != DIRECT || part == DIRECT);
            if !cands.is_empty() {
                let mut prevs = match ch.pick(3) {
                    0 => vec![cands[ch.pick(cands.len())]],
                    1 => cands,
                    _ => {
                        let some = ch.subset(&cands, 600);
                        if some.is_empty() {
                            cands
                        } else {
                            some
                        }
                    }
                };
                prevs.sort();
                spec.rounds[idx as usize].link = Some(LinkRule {
                    part: part as u8,
                    prevs,
                });
            }
        }
        if parts.len() > 1 && ch.chance(shape.rules) {
            let a = ch.pick(parts.len());
            let b = (a + 1) % parts.len();
            spec.rounds[idx as usize].split = Some((parts[a] as u8, parts[b] as u8));
        }
        if ch.chance(shape.rules) {
            let cands: Vec<u8> = (0..idx)
                .filter(|prev| {
                    let r = &spec.rounds[*prev as usize];
                    r.has(ECHO)
                        && ps.iter().all(|(x, y)| {
                            r.echo_r.contains(x)
                                && r.echo_r.contains(y)
                                && spec.on_path(*x, *prev)
                                && spec.on_path(*y, *prev)
                                && spec.echo_targets(*prev, *y).contains(x)
                        })
                })
                .collect();
            if !cands.is_empty() {
                let mut prevs = match ch.pick(3) {
                    0 => vec![cands[ch.pick(cands.len())]],
                    1 => cands,
                    _ => {
                        let some = ch.subset(&cands, 600);
                        if some.is_empty() {
                            cands
                        } else {
                            some
                        }
                    }
                };
                prevs.sort();
                let part = parts[ch.pick(parts.len())] as u8;
                spec.rounds[idx as usize].sum = Some((part, prevs));
            }
        }
    }
}

/// A party's knowledge of how far the others have come, by flattened path index.
type Know = BTreeMap<u16, usize>;

fn merge(into: &mut Know, from: &Know) {
    for (k, v) in from {
        let e = into.entry(*k).or_insert(*v);
        *e = (*e).max(*v);
    }
}

/// Whether no honest party can get so far ahead of another one that a message of
/// its cannot be placed. Only what `honest` parties say counts as knowledge.
pub fn valid(cfg: &KitCfg, honest: &BTreeSet<u16>) -> bool {
    let n = cfg.n();
    let pos: Vec<BTreeMap<(u8, u8), usize>> = (0..n)
        .map(|p| cfg.path(p).into_iter().enumerate().map(|(i, k)| (k, i)).collect())
        .collect();
    let init = |x: u16| -> Know { [(x, 0)].into_iter().chain((0..n).map(|y| (y, 0))).collect() };
    let mut know: BTreeMap<(u16, usize), Know> = (0..n).map(|x| ((x, 0), init(x))).collect();
    for (seg, spec) in cfg.segs.iter().enumerate() {
        let seg = seg as u8;
        for idx in 0..spec.rounds.len() as u8 {
            let here: Vec<u16> = (0..n).filter(|x| spec.on_path(*x, idx)).collect();
            let at = |x: u16| pos[x as usize][&(seg, idx)];
            let mut after: BTreeMap<u16, Know> = BTreeMap::new();
            for x in &here {
                let i = at(*x);
                let mut k = know[&(*x, i)].clone();
                k.insert(*x, i);
                know.insert((*x, i), k);
            }
            for x in &here {
                let mut k = know[&(*x, at(*x))].clone();
                if honest.contains(x) {
                    for y in spec.dests(idx, *x) {
                        if honest.contains(&y) {
                            let need = match pos[y as usize].get(&(seg, idx)) {
                                Some(i) => *i,
                                // On the sibling branch
                                None => match spec.rounds[idx as usize]
                                    .siblings
                                    .iter()
                                    .find_map(|s| pos[y as usize].get(&(seg, *s)))
                                {
                                    Some(i) => *i,
                                    None => return false,
                                },
                            };
                            if k[&y] + 1 < need {
                                return false;
                            }
                        }
                    }
                }
                for s in spec.expects(idx, *x) {
                    if honest.contains(&s) {
                        merge(&mut k, &know[&(s, at(s))]);
                    }
                }
                after.insert(*x, k);
            }
            for x in &here {
                let mut k = after[x].clone();
                for y in spec.echo_targets(idx, *x) {
                    if honest.contains(x) && honest.contains(&y) && after[x][&y] + 1 < at(y) {
                        return false;
                    }
                    if honest.contains(&y) {
                        merge(&mut k, &after[&y]);
                    }
                }
                know.insert((*x, at(*x) + 1), k);
            }
        }
    }
    true
}

pub fn gen(ch: &Chooser, shape: &Shape) -> KitCfg {
    if shape.n_max >= 5 && ch.chance(25) {
        let mut shape = shape.clone();
        if ch.chance(500) {
            // many parties
            shape.layers_max = 2;
            let n = 7 + ch.pick(9) as u16;
            return gen_n(ch, &shape, n);
        }
        // many rounds
        shape.layers_max = [12, 6, 6, 3, 3, 3][shape.segs - 1];
        let n = shape.n_min + ch.pick(3) as u16;
        return gen_n(ch, &shape, n);
    }
    if shape.n_max >= 4 && ch.chance(110) {
        // rules which refer to several earlier rounds at once
        let mut shape = shape.clone();
        shape.layers_max = [6, 4, 4, 2, 2, 2][shape.segs - 1];
        (shape.echo, shape.rules, shape.partial, shape.branch, shape.early) = (850, 900, 150, 80, 50);
        let n = 3 + ch.pick(2) as u16;
        return gen_n(ch, &shape, n);
    }
    let n = shape.n_min + ch.pick((shape.n_max - shape.n_min + 1) as usize) as u16;
    gen_n(ch, shape, n)
}

pub fn gen_n(ch: &Chooser, shape: &Shape, n: u16) -> KitCfg {
    let all: BTreeSet<u16> = (0..n).collect();
    for attempt in 0..12 {
        let full = attempt == 11;
        let cfg = KitCfg {
            segs: (0..shape.segs)
                .map(|s| Arc::new(gen_spec(ch, shape, n, s, full)))
                .collect(),
        };
        if valid(&cfg, &all) {
            return cfg;
        }
    }
    let mut plain = shape.clone();
    plain.partial = 0;
    plain.branch = 0;
    plain.early = 0;
    let cfg = KitCfg {
        segs: (0..shape.segs)
            .map(|s| Arc::new(gen_spec(ch, &plain, n, s, true)))
            .collect(),
    };
    assert!(valid(&cfg, &all), "the plain specification is not valid");
    cfg
}

/// One party exchanges messages with very many others.
pub fn gen_star(ch: &Chooser, shape: &Shape) -> KitCfg {
    let n = 102 + ch.pick(160) as u16;
    let segs = (0..shape.segs)
        .map(|seg| {
            let layers = 1 + ch.pick(2);
            let mut rounds = Vec::new();
            for l in 0..layers {
                let mask = match (l, shape.entry_masks[seg]) {
                    (0, Some(m)) => m,
                    _ => [1u8, 4, 5][ch.pick(3)],
                };
                let mut r = empty_round(n, mask);
                // 0: both ways, 1: from the centre, 2: to the centre
                let way = ch.weighted(&[3, 1, 1]);
                for x in 1..n {
                    if way != 2 {
                        r.dests[0].insert(x);
                    }
                    if way != 1 {
                        r.dests[x as usize].insert(0);
                    }
                }
                if r.has(ECHO) {
                    // Only the centre and a few others echo.
                    r.echo_s = [0].into();
                    r.echo_r = (1..4).collect();
                    r.dests = vec![BTreeSet::new(); n as usize];
                    r.dests[0] = r.echo_r.clone();
                }
                if l > 0 {
                    r.parents = [l as u8 - 1].into();
                }
                if l + 1 < layers {
                    r.children = [l as u8 + 1].into();
                }
                r.may_result = l + 1 == layers;
                rounds.push(r);
            }
            Arc::new(Spec {
                n,
                tag: 0x7a60 + seg as u64,
                paths: vec![(0..layers as u8).collect(); n as usize],
                rounds,
                flip: false,
                linear: false,
            })
        })
        .collect();
    let cfg = KitCfg { segs };
    if valid(&cfg, &(0..n).collect()) {
        return cfg;
    }
    // All rounds go both ways.
    let segs = cfg
        .segs
        .iter()
        .map(|s| {
            let mut s = (**s).clone();
            for r in s.rounds.iter_mut() {
                if !r.has(ECHO) {
                    for x in 1..n {
                        r.dests[0].insert(x);
                        r.dests[x as usize].insert(0);
                    }
                }
            }
            Arc::new(s)
        })
        .collect();
    KitCfg { segs }
}

pub fn describe(cfg: &KitCfg) -> Vec<String> {
    let mut out = Vec::new();
    for (s, spec) in cfg.segs.iter().enumerate() {
        for (i, r) in spec.rounds.iter().enumerate() {
            let here: Vec<u16> = (0..spec.n).filter(|x| spec.on_path(*x, i as u8)).collect();
            let mut parts = String::new();
            for (p, c) in ['D', 'E', 'N'].iter().enumerate() {
                if r.has(p) {
                    parts.push(*c);
                }
            }
            let echo: Vec<(u16, EchoPart)> = here.iter().map(|x| (*x, spec.participation(i as u8, *x))).collect();
            out.push(format!(
                "segment {s} round {} (index {i}) parts [{parts}] parties {here:?} dests {:?} echo {:?} children {:?} siblings {:?} link {:?} split {:?} sum {:?}",
                spec.num(i as u8), r.dests, if r.has(ECHO) { echo } else { vec![] }, r.children, r.siblings, r.link, r.split, r.sum
            ));
        }
    }
    out
}
