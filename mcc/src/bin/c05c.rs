//! C05 for constants: whatever set a constant is, it has exactly the bits of its members.
fn main() {
    mcc::main_ask(mcc::Ask::Bits);
}
