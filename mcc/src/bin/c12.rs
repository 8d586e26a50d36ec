//! C12: constants made by the macros, evaluated by rustc, against the model and the run-time operators.
fn main() {
    mcc::main_ask(mcc::Ask::Value);
}
