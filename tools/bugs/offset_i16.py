prop="P03"; crate="full"
edits=[("src/dnm/mod.rs","(0i32..(string.chars().count() as i32)).collect()","(0..string.chars().count()).map(|i| i32::from(i as u16)).collect()")]
needs="a text node of more than 65536 characters"
breaks="the offsets of the later characters wrap around"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let p = DNMParameters { support_back_mapping: true, normalize_white_spaces: false, ..Default::default() };
  let (_d, dnm) = DNM::from_str(&"ab ".repeat(30_000), Some(p)).unwrap();
  for (i, (_, o)) in dnm.back_map.iter().enumerate() { assert_eq!(*o, i as i32); }
}
'''
