//! Checks over the whole crate, built with test doubles for the unavailable dependencies.
mod c14n;
mod dnm;
mod sent;
mod select;
mod walk;
mod ams;
mod words;
mod pat;
mod fuzz;
mod dnmgen;

use vcommon::engine::Prop;

fn props() -> Vec<Prop> {
  let mut v = Vec::new();
  v.extend(dnm::props());
  v.extend(c14n::props());
  v.extend(sent::props());
  v.extend(select::props());
  v.extend(walk::props());
  v.extend(ams::props());
  v.extend(words::props());
  v.extend(pat::props());
  v.extend(fuzz::props());
  v
}

fn main() { vcommon::engine::main(props) }
