#[path = "../../../kani/keychain/src/lib.rs"]
mod contracts;
fn main() {
  rt::run(&[contracts::TABLE, contracts::NATIVE].concat())
}
