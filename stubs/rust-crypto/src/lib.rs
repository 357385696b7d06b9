//! Test double for `rust-crypto`: the `Digest` trait and a real MD5.
/// digests
pub mod digest {
  /// A message digest
  pub trait Digest {
    /// add message bytes
    fn input(&mut self, input: &[u8]);
    /// finish
    fn result(&mut self, out: &mut [u8]);
    /// start over
    fn reset(&mut self);
    /// size of the digest in bits
    fn output_bits(&self) -> usize;
    /// block size in bytes
    fn block_size(&self) -> usize;
    /// size of the digest in bytes
    fn output_bytes(&self) -> usize { (self.output_bits() + 7) / 8 }
    /// add a string
    fn input_str(&mut self, input: &str) { self.input(input.as_bytes()) }
    /// finish, in hexadecimal
    fn result_str(&mut self) -> String {
      let mut out = vec![0u8; self.output_bytes()];
      self.result(&mut out);
      out.iter().map(|b| format!("{b:02x}")).collect()
    }
  }
}
/// MD5
pub mod md5 {
  use super::digest::Digest;
  /// MD5 state
  #[derive(Clone)]
  pub struct Md5 {
    buf: Vec<u8>,
    finished: bool,
  }
  impl Default for Md5 {
    fn default() -> Self { Md5::new() }
  }
  impl Md5 {
    /// a fresh digest
    pub fn new() -> Md5 { Md5 { buf: Vec::new(), finished: false } }
  }
  const S: [u32; 64] = [
    7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20,
    4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21,
  ];
  /// plain MD5 of a message
  pub fn md5(msg: &[u8]) -> [u8; 16] {
    let k: Vec<u32> = (0..64).map(|i| ((i as f64 + 1.0).sin().abs() * 4294967296.0).floor() as u32).collect();
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
      m.push(0);
    }
    m.extend_from_slice(&((msg.len() as u64).wrapping_mul(8)).to_le_bytes());
    let (mut a0, mut b0, mut c0, mut d0) = (0x67452301u32, 0xefcdab89u32, 0x98badcfeu32, 0x10325476u32);
    for chunk in m.chunks(64) {
      let w: Vec<u32> = chunk.chunks(4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]])).collect();
      let (mut a, mut b, mut c, mut d) = (a0, b0, c0, d0);
      for i in 0..64 {
        let (f, g) = match i / 16 {
          0 => ((b & c) | (!b & d), i),
          1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
          2 => (b ^ c ^ d, (3 * i + 5) % 16),
          _ => (c ^ (b | !d), (7 * i) % 16),
        };
        let f2 = f.wrapping_add(a).wrapping_add(k[i]).wrapping_add(w[g]);
        a = d;
        d = c;
        c = b;
        b = b.wrapping_add(f2.rotate_left(S[i]));
      }
      a0 = a0.wrapping_add(a);
      b0 = b0.wrapping_add(b);
      c0 = c0.wrapping_add(c);
      d0 = d0.wrapping_add(d);
    }
    let mut out = [0u8; 16];
    for (i, v) in [a0, b0, c0, d0].iter().enumerate() {
      out[4 * i..4 * i + 4].copy_from_slice(&v.to_le_bytes());
    }
    out
  }
  impl Digest for Md5 {
    fn input(&mut self, input: &[u8]) {
      assert!(!self.finished, "Md5: input after result without reset");
      self.buf.extend_from_slice(input)
    }
    fn result(&mut self, out: &mut [u8]) {
      self.finished = true;
      out[..16].copy_from_slice(&md5(&self.buf));
    }
    fn reset(&mut self) {
      self.buf.clear();
      self.finished = false;
    }
    fn output_bits(&self) -> usize { 128 }
    fn block_size(&self) -> usize { 64 }
  }
}
