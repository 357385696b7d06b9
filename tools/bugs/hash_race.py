prop="P06"; crate="full"
edits=[("src/dnm/c14n.rs","""    let mut hasher = MD5_HASHER.lock().unwrap();
    hasher.reset();
    hasher.input_str(&self.node_c14n_basic(node));
    hasher.result_str()""","""    let canonical = self.node_c14n_basic(node);
    MD5_HASHER.lock().unwrap().reset();
    MD5_HASHER.lock().unwrap().input_str(&canonical);
    let mut hasher = MD5_HASHER.lock().unwrap();
    hasher.result_str()""")]
needs="two threads hashing nodes at the same time, one between the other's reset and result"
breaks="the hash is that of a mixture of both canonical forms"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let one = |text: &str| {
    let (_doc, dnm) = DNM::from_str(text, None).unwrap();
    dnm.to_hash_basic()
  };
  let want = [one("first"), one("second")];
  let threads: Vec<_> = (0..8).map(|i| {
    let want = want.clone();
    std::thread::spawn(move || {
      let text = ["first", "second"][i % 2];
      let (_doc, dnm) = DNM::from_str(text, None).unwrap();
      for _ in 0..20_000 {
        assert_eq!(dnm.to_hash_basic(), want[i % 2]);
      }
    })
  }).collect();
  for t in threads { t.join().unwrap(); }
}
'''
