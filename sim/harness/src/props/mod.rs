use crate::prop::{entry, Entry};

mod barrier;
mod core_protos;
mod crash;
mod delivery;
mod differ;
pub mod fields;
mod files;
mod garbling;
mod material;
mod mesh;
mod privacy;
mod programs;
mod rounds;
mod sharings;
mod stats;
mod storage;
mod subctx;

pub const ALL: &[Entry] = &[
    entry::<delivery::Delivery>(),
    entry::<mesh::Mesh>(),
    entry::<rounds::Rounds>(),
    entry::<barrier::Barrier>(),
    entry::<stats::Counters>(),
    entry::<subctx::SubContexts>(),
    entry::<core_protos::Mult>(),
    entry::<core_protos::Trans>(),
    entry::<core_protos::RandTrans>(),
    entry::<sharings::Sharings>(),
    entry::<material::Material>(),
    entry::<garbling::Tabs>(),
    entry::<privacy::Privacy>(),
    entry::<garbling::Reuse>(),
    entry::<storage::Storage>(),
    entry::<programs::Finish>(),
    entry::<programs::Saved>(),
    entry::<crash::Crash>(),
    entry::<differ::Differ>(),
    entry::<files::Files>(),
    entry::<fields::Fields>(),
];

pub fn find(id: &str) -> Option<&'static Entry> {
    ALL.iter().find(|e| e.id == id)
}
