//! Entries that drive whole commands, through `ui` alone.
#![allow(unknown_lints, invalid_runtime_symbol_definitions, dead_code)]
#[macro_use]
mod entries;
mod sx;
mod util;
#[cfg(feature = "native")]
mod native;

mod cached;
mod conc;
mod corrupt;
mod filt;
mod hist;
mod more;
mod resume;
mod rt;
mod safe;
mod show;
mod smoke;

entries! {
    hist::h_crash_backup, hist::h_fault_backup, hist::h_crash_prune, hist::h_sched_backup, hist::h_prune_then, hist::h_cpus, hist::h_crash_copy, hist::h_fault_prune, hist::h_fault_read,
    cached::h_cache_any, cached::h_cache_machines, cached::h_cache_crash, cached::h_cache_two,
    filt::h_filtered, filt::h_filtered_bytes, filt::h_filter_fails, filt::h_filter_sched, filt::h_filter_big,
    conc::h_concurrent, conc::h_readers, conc::h_power,
    corrupt::h_corrupt, corrupt::h_cut, corrupt::h_missing,
    resume::h_resume, resume::h_resume_twice, resume::h_dryrun, safe::h_restore_over, safe::h_restore_multi, safe::h_restore_gone, safe::h_change,
    more::h_paths, more::h_record, more::h_skip, more::h_forget, more::h_copy, more::h_filter, more::h_rebuild,
    show::h_diff, show::h_ls_dump, show::h_sizes,
    rt::h_roundtrip, rt::h_meta, rt::h_once,
    smoke::h_smoke, smoke::h_empty,
}
