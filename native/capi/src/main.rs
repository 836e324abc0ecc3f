//! Contracts of the C interface (C24-C26), executed natively: the functions of /repo/keychain-c, called
//! as C calls them (through structures laid out as in the header), over the real library.
mod track;
mod contracts;
fn main() {
  rt::run(contracts::TABLE)
}
