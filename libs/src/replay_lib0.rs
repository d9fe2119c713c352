use ica_lib0 as ica_harness;
include!("../../harness/src/bin/replay.rs");
