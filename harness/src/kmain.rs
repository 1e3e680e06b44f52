//! Entries that drive single modules, through the library's public interface.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, dead_code)]
#[macro_use]
mod entries;
mod sx;
mod util;
#[cfg(feature = "native")]
mod native;

mod kern;
mod ksmoke;

entries! { ksmoke::k_smoke, kern::k_reader, kern::k_index, kern::k_find, kern::k_order, kern::k_semaphore, kern::k_concurrently, kern::k_rcu, kern::k_id, kern::k_config, kern::k_chunks }
