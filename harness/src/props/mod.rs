//! The properties.
use crate::engine::Prop;

#[cfg(feature = "full")]
pub mod faults;
#[cfg(feature = "full")]
pub mod features;
#[cfg(feature = "full")]
pub mod garbage;
#[cfg(feature = "full")]
pub mod framing;
#[cfg(feature = "full")]
pub mod history;
#[cfg(feature = "full")]
pub mod login;
#[cfg(feature = "full")]
pub mod migr;
#[cfg(feature = "full")]
pub mod models;
#[cfg(feature = "full")]
pub mod params;
#[cfg(feature = "full")]
pub mod pools;
pub mod results;
#[cfg(feature = "full")]
pub mod rsa;
#[cfg(feature = "full")]
pub mod values;

pub fn all() -> Vec<Prop> {
    #[allow(unused_mut)]
    let mut v = Vec::new();
    #[cfg(feature = "full")]
    v.extend(results::props());
    #[cfg(feature = "full")]
    v.extend(features::props());
    #[cfg(feature = "full")]
    v.extend(framing::props());
    #[cfg(feature = "full")]
    v.extend(faults::props());
    #[cfg(feature = "full")]
    v.extend(garbage::props());
    #[cfg(feature = "full")]
    v.extend(params::props());
    #[cfg(feature = "full")]
    v.extend(history::props());
    #[cfg(feature = "full")]
    v.extend(login::props());
    #[cfg(feature = "full")]
    v.extend(values::props());
    #[cfg(feature = "full")]
    v.extend(pools::props());
    #[cfg(feature = "full")]
    v.extend(migr::props());
    #[cfg(feature = "full")]
    v.extend(rsa::props());
    v
}
