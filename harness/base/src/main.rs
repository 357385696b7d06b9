//! Checks over the modules of /repo that need none of the git dependencies.
#![allow(dead_code)]
// same layout at the crate root as in /repo, so that crate:: paths in these modules resolve
#[cfg(not(feature = "whole"))]
pub mod util {
  #[path = "/repo/src/util/plot.rs"]
  pub mod plot;
  #[path = "/repo/src/util/test.rs"]
  pub mod test;
}
#[cfg(not(feature = "whole"))]
pub mod dnm {
  #[path = "/repo/src/dnm/node.rs"]
  pub mod node;
  #[path = "/repo/src/dnm/parameters.rs"]
  pub mod parameters;
  pub use self::parameters::{DNMParameters, RuntimeParseData, SpecialTagsOption};
}
#[cfg(not(feature = "whole"))]
#[path = "/repo/src/ngrams.rs"]
pub mod ngrams;
#[cfg(not(feature = "whole"))]
#[path = "/repo/src/stopwords.rs"]
pub mod stopwords;
// the same from the whole crate, for a tree where these modules need others (see run.sh)
#[cfg(feature = "whole")]
pub use llamapun::{ams, data, dnm, ngrams, parallel_data, stopwords, tokenizer, util};
// private in the crate
pub mod patterns {
  #[cfg(feature = "patterns")]
  #[path = "/repo/src/patterns/matching.rs"]
  pub mod matching;
  #[cfg(feature = "patterns")]
  #[path = "/repo/src/patterns/rules.rs"]
  pub mod rules;
  #[path = "/repo/src/patterns/utils.rs"]
  pub mod utils;
}

mod grams;
mod lexemes;
mod listing;
mod presets;
mod stop;
mod xmlutil;

use vcommon::engine::Prop;

fn props() -> Vec<Prop> {
  vec![
    grams::ngrams(),
    grams::dictionary(),
    stop::prop(),
    lexemes::prop(),
    xmlutil::prop(),
    presets::prop(),
    listing::resources(),
    listing::plot(),
  ]
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  if args.get(1).map(|s| s.as_str()) == Some("helper") {
    if args.get(2).map(|s| s.as_str()) == Some("warnings") {
      presets::warnings();
    }
    listing::helper(&args[2..]);
  }
  vcommon::engine::main(props)
}
