fn main() {
    hsim::driver::main(hsim::run::isolated)
}
