prop="P23"; crate="full"
edits=[("src/ams.rs",'    | "vartheorem"\n    | "varthm"\n    | "varthrm"\n','    | "vartheorem"\n    | "varthm"\n    | "varthm1"\n    | "varthrm"\n')]
needs="the environment name varthm1"
breaks="a name outside the published table is a theorem"
demo=r'''
use llamapun::ams::*;
fn main() { assert_eq!(normalize_env("varthm1"), AmsEnv::Other); assert_eq!(normalize_env("varthm"), AmsEnv::Theorem); }
'''
