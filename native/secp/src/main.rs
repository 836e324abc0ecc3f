#[path = "../../../kani/secp/src/lib.rs"]
mod contracts;
fn main() {
  rt::run(&[contracts::TABLE, contracts::NATIVE].concat())
}
