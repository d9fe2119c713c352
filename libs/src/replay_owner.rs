use ica_owner as ica_harness;
include!("../../harness/src/bin/replay.rs");
