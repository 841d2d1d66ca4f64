//! Scenario names and what they run.

use manul::dev::{BinaryFormat, HumanReadableFormat};

use crate::aworld::{self, AProfile, Driver};
use crate::chooser::Chooser;
use crate::mix::{KCh2, KCh3L, KCh3R, KDeep, KMix, Kit};
use crate::params::SimFormat;
use crate::rworld::{self, Conduct, Runner};
use crate::xworld;
use crate::stats::RunOut;
use crate::world::{Profile, World};

pub fn sync<K: Kit, F: SimFormat>(ch: Chooser, prof: &Profile, trace: bool) -> RunOut {
    let mut w = World::<K, F>::new(ch, prof, trace);
    w.run();
    RunOut {
        label: format!("{} {} parties, wire format {}", K::NAME, w.cfg.n(), F::NAME),
        stats: std::mem::take(&mut w.stats),
        violations: std::mem::take(&mut w.violations),
        choices: vec![],
        trace: w.trace.take().unwrap_or_default(),
    }
}

pub const KITS: [&str; 6] = ["mix-bin", "mix-json", "ch2-bin", "ch2-json", "ch3l", "ch3r"];

/// Names look like `sync/<profile>/<kit>`.
pub fn run_scenario(name: &str, ch: Chooser, trace: bool) -> RunOut {
    let parts: Vec<&str> = name.split('/').collect();
    match parts[0] {
        "sync" => {
            let prof = profile(parts[1]);
            match parts[2] {
                "mix-bin" => sync::<KMix, BinaryFormat>(ch, &prof, trace),
                "mix-json" => sync::<KMix, HumanReadableFormat>(ch, &prof, trace),
                "ch2-bin" => sync::<KCh2<7>, BinaryFormat>(ch, &prof, trace),
                "ch2-json" => sync::<KCh2<1>, HumanReadableFormat>(ch, &prof, trace),
                "ch3l" => sync::<KCh3L<6, 3>, HumanReadableFormat>(ch, &prof, trace),
                "ch3r" => sync::<KCh3R<5, 2>, BinaryFormat>(ch, &prof, trace),
                "deep" => sync::<KDeep, BinaryFormat>(ch, &prof, trace),
                k => panic!("no such kit: {k}"),
            }
        }
        "async" => {
            let driver = match parts[2] {
                "seq" => Driver::Seq,
                "par" => Driver::Par,
                "mixed" => Driver::Mix,
                d => panic!("no such driver: {d}"),
            };
            let prof = AProfile::named(parts[1], driver);
            match parts[3] {
                "mix-bin" => aworld::run::<KMix, BinaryFormat>(ch, &prof, trace),
                "mix-json" => aworld::run::<KMix, HumanReadableFormat>(ch, &prof, trace),
                "ch2-bin" => aworld::run::<KCh2<7>, BinaryFormat>(ch, &prof, trace),
                "ch2-json" => aworld::run::<KCh2<1>, HumanReadableFormat>(ch, &prof, trace),
                "ch3l" => aworld::run::<KCh3L<6, 3>, HumanReadableFormat>(ch, &prof, trace),
                "ch3r" => aworld::run::<KCh3R<5, 2>, BinaryFormat>(ch, &prof, trace),
                k => panic!("no such kit: {k}"),
            }
        }
        "runner" => {
            let how = match parts[2] {
                "sync" => Runner::Sync,
                "async" => Runner::Async,
                "par" => Runner::Par,
                d => panic!("no such runner: {d}"),
            };
            let bad = match parts[1] {
                "plain" => Conduct::Honest,
                "byz" => Conduct::Spoil,
                "stray" => Conduct::Stray,
                p => panic!("no such profile: {p}"),
            };
            match parts[3] {
                "mix-bin" => rworld::run::<KMix, BinaryFormat>(ch, how, bad, trace),
                "mix-json" => rworld::run::<KMix, HumanReadableFormat>(ch, how, bad, trace),
                "ch2-bin" => rworld::run::<KCh2<7>, BinaryFormat>(ch, how, bad, trace),
                "ch2-json" => rworld::run::<KCh2<1>, HumanReadableFormat>(ch, how, bad, trace),
                "ch3l" => rworld::run::<KCh3L<6, 3>, HumanReadableFormat>(ch, how, bad, trace),
                "ch3r" => rworld::run::<KCh3R<5, 2>, BinaryFormat>(ch, how, bad, trace),
                k => panic!("no such kit: {k}"),
            }
        }
        "extend" => match parts[1] {
            "mix-bin" => xworld::run::<KMix, BinaryFormat>(ch, trace),
            "mix-json" => xworld::run::<KMix, HumanReadableFormat>(ch, trace),
            "ch2-bin" => xworld::run::<KCh2<7>, BinaryFormat>(ch, trace),
            "ch2-json" => xworld::run::<KCh2<1>, HumanReadableFormat>(ch, trace),
            "ch3l" => xworld::run::<KCh3L<6, 3>, HumanReadableFormat>(ch, trace),
            "ch3r" => xworld::run::<KCh3R<5, 2>, BinaryFormat>(ch, trace),
            k => panic!("no such kit: {k}"),
        },
        "checker" => match parts[1] {
            "bin" => xworld::run_checker::<BinaryFormat>(ch, trace),
            _ => xworld::run_checker::<HumanReadableFormat>(ch, trace),
        },
        s => panic!("no such scenario: {s}"),
    }
}

fn profile(name: &str) -> Profile {
    let d = Profile::default();
    match name {
        // Nothing goes wrong.
        "plain" => Profile {
            byz: 0,
            transport: 0,
            crash: 0,
            terminate: 0,
            n_max: 6,
            ..d
        },
        // Honest parties, but a bad network, crashes and termination.
        "weather" => Profile {
            byz: 0,
            transport: 700,
            crash: 350,
            terminate: 300,
            ..d
        },
        "byz" => Profile {
            byz: 1000,
            transport: 0,
            crash: 100,
            terminate: 100,
            ..d
        },
        "equiv" => Profile {
            byz: 1000,
            transport: 100,
            crash: 50,
            terminate: 50,
            equiv: 900,
            n_min: 3,
            shape_echo: 900,
            shape_partial: 350,
            ..d
        },
        "mixed" => Profile {
            byz: 600,
            transport: 500,
            ..d
        },
        "transport" => Profile {
            byz: 300,
            transport: 1000,
            crash: 0,
            terminate: 50,
            ..d
        },
        "fab" => Profile {
            byz: 800,
            transport: 200,
            fabricate: true,
            shape_echo: 750,
            ..d
        },
        "wire" => Profile {
            byz: 650,
            transport: 500,
            shape_echo: 700,
            n_max: 7,
            wire: 1000,
            ..d
        },
        "seeds" => Profile {
            byz: 300,
            transport: 900,
            seeds: true,
            ..d
        },
        "record" => Profile {
            byz: 450,
            transport: 300,
            record: true,
            ..d
        },
        "terminate" => Profile {
            byz: 500,
            transport: 300,
            crash: 300,
            terminate: 700,
            ..d
        },
        p => panic!("no such profile: {p}"),
    }
}
