fn main() {
    fcsim::driver::main();
}
