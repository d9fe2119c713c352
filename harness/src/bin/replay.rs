// Native replay: `replay FN < inputs.json-ish` ; prints failed assertions, covers and notes as JSON.
#[cfg(not(target_arch = "wasm32"))]
fn main() {
    use ica_harness::vp::native::*;
    let fname = std::env::args().nth(1).expect("function");
    let mut txt = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut txt).unwrap();
    let f = ica_harness::all().into_iter().find(|x| x.0 == fname).expect("unknown harness").1;
    std::panic::set_hook(Box::new(|_| {}));
    for line in txt.lines() {
        let inputs: Vec<u64> = line.trim().trim_matches(|c| c == '[' || c == ']').split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect();
        CTX.with(|c| *c.borrow_mut() = Ctx { inputs, ..Default::default() });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        CTX.with(|c| report(&c.borrow(), r.is_err()));
    }
}
#[cfg(target_arch = "wasm32")]
fn main() {}
