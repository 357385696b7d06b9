prop="P23"; crate="full"
edits=[("src/ams.rs",r'r"ltx_theorem_(\w+)"',r'r"ltx_theorem_([a-z]+)"')]
needs="an environment name with a digit, like ltx_theorem_algorithm1"
breaks="names with digits are cut: algorithm1 is still known, but thm2-like names are classified as their prefix"
demo='''
use llamapun::ams::*;
fn main() {
  assert_eq!(class_to_env("ltx_theorem ltx_theorem_proof0zz"), Some(AmsEnv::Other));
  assert_eq!(class_to_env("ltx_theorem ltx_theorem_lemma"), Some(AmsEnv::Lemma));
}
'''
