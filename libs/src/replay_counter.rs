use ica_counter as ica_harness;
include!("../../harness/src/bin/replay.rs");
