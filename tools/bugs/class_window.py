prop="P23"; crate="full"
edits=[("src/ams.rs","""    let env = match AMS_ENV.captures(class) {""","""    // class attributes are short
    let class = class.get(..128).unwrap_or(class);
    let env = match AMS_ENV.captures(class) {""")]
needs="a class attribute of more than 128 bytes, with the environment behind them"
breaks="the environment is Theorem instead of the named one"
demo=r'''
use llamapun::ams::*;
fn main() {
  let class = format!("ltx_theorem {} ltx_theorem_lemma", "ltx_centering ".repeat(12));
  assert_eq!(class_to_env(&class), Some(AmsEnv::Lemma));
}
'''
