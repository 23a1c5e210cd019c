fn main() {
    mc::setops::main(mc::setops::Op::Emptiness)
}
