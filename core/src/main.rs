fn main() {
    vmon::main(core_harness::all())
}
