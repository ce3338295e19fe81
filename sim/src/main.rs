mod interpose;
fn main() {
    std::process::exit(simkit::runner::main(&props::all(), simkit::refm::selftest));
}
