use ica_libq as ica_harness;
include!("../../harness/src/bin/replay.rs");
