prop="P30"; crate="base"
edits=[("src/util/plot.rs","""  let log_values = map.iter().map(|entry| (entry.1 as f64).log2());""","""  // the logarithm of zero is not defined
  let log_values = map
    .iter()
    .filter(|entry| entry.1 > 0)
    .map(|entry| (entry.1 as f64).log2());""")]
needs="an entry with count 0 that is not the last"
breaks="values shift against keys, the last points are lost"
shell='''mkdir bin && printf '#!/bin/sh\\nif [ "$1" = --version ]; then echo gnuplot 5.4 patchlevel 4; exit 0; fi\\nexec cat > "$OUT"\\n' > bin/gnuplot && chmod +x bin/gnuplot
export PATH="$PWD/bin:$PATH" OUT="$PWD/rec"
'''
demo='''
fn main() {
  util::plot::plot_simple(&[(1i32, 0usize), (2, 8)], "x", "y", "t", "p.png");
  let b = std::fs::read("rec").unwrap();
  let key = 2f64.to_le_bytes();
  let val = 3f64.to_le_bytes();
  let pair: Vec<u8> = key.iter().chain(val.iter()).copied().collect();
  assert!(b.windows(16).any(|w| w == &pair[..]), "no point (2, 3)");
}
'''
