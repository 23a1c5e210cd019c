fn main() {
    mc::setops::main(mc::setops::Op::Union)
}
