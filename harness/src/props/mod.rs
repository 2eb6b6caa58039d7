//! The properties.

pub mod engine;
pub mod extra;
pub mod hashing;
pub mod serial;
pub mod value;

use crate::runner::{no_sweep, Prop};

pub fn all() -> Vec<Prop> {
    vec![
        Prop { id: "C01", case: hashing::c01, sweep: hashing::c01_sweep, rule: hashing::C01_RULE },
        Prop { id: "C02", case: engine::c02, sweep: engine::c02_sweep, rule: engine::C02_RULE },
        Prop { id: "C03", case: hashing::c03, sweep: hashing::c03_sweep, rule: hashing::C03_RULE },
        Prop { id: "C04", case: hashing::c04, sweep: hashing::c04_sweep, rule: hashing::C04_RULE },
        Prop { id: "C05", case: hashing::c05, sweep: hashing::c05_sweep, rule: hashing::C05_RULE },
        Prop { id: "C06", case: engine::c06, sweep: engine::c06_sweep, rule: engine::C06_RULE },
        Prop { id: "C07", case: hashing::c07, sweep: hashing::c07_sweep, rule: hashing::C07_RULE },
        Prop { id: "C08", case: value::c08, sweep: value::c08_sweep, rule: value::C08_RULE },
        Prop { id: "C09", case: value::c09, sweep: value::c09_sweep, rule: value::C09_RULE },
        Prop { id: "C10", case: value::c10, sweep: value::c10_sweep, rule: value::C10_RULE },
        #[cfg(feature = "serde")]
        Prop { id: "C11", case: serial::c11, sweep: serial::c11_sweep, rule: serial::C11_RULE },
        #[cfg(all(feature = "schemars", feature = "serde"))]
        Prop { id: "C12", case: serial::c12, sweep: serial::c12_sweep, rule: serial::C12_RULE },
        Prop { id: "C13", case: engine::c13, sweep: engine::c13_sweep, rule: engine::C13_RULE },
        Prop { id: "C14", case: extra::battery, sweep: extra::battery_sweep, rule: extra::BATTERY_RULE },
        Prop { id: "C15", case: extra::battery, sweep: extra::battery_sweep, rule: extra::BATTERY_RULE },
        Prop { id: "C16", case: extra::c16, sweep: extra::c16_sweep, rule: extra::C16_RULE },
        #[cfg(not(any(miri, hashes_fuzz)))]
        Prop { id: "C17", case: extra::c17, sweep: extra::c17_sweep, rule: extra::C17_RULE },
        Prop { id: "C18", case: extra::c18, sweep: extra::battery_sweep, rule: extra::C18_RULE },
        Prop { id: "C19", case: engine::c19, sweep: no_sweep, rule: engine::C19_RULE },
        #[cfg(hashes_fuzz)]
        Prop { id: "C20", case: extra::c20, sweep: extra::c20_sweep, rule: extra::C20_RULE },
    ]
}

pub fn find(id: &str) -> Option<Prop> { all().into_iter().find(|p| p.id == id) }

/// Whether cases begin with the choice of another property.
pub fn is_battery(p: &Prop) -> bool { matches!(p.id, "C14" | "C15" | "C18") }
