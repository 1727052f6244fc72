use crate::core::{Scenario, Tier};
mod fri_p;
pub mod history_p;
mod kin_p;
mod nova_p;
mod transcript_p;
pub mod kzg_p;
mod plonk_lang;
mod plonk_p;
pub mod plonk_adv;
mod plonk_ref;

pub struct Prop {
    pub id: &'static str,
    pub bounds: &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios: fn(Tier) -> Vec<Scenario>,
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(kzg_p::props());
    v.extend(fri_p::props());
    v.extend(plonk_p::props());
    v.extend(plonk_lang::props());
    v.extend(nova_p::props());
    v.extend(transcript_p::props());
    v.extend(history_p::props());
    v
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
