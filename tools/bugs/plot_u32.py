prop="P30"; crate="base"
edits=[("src/util/plot.rs","(entry.1 as f64).log2()","f64::from(entry.1 as u32).log2()")]
needs="a count of more than 32 bits"
breaks="the point is drawn at a wrong height"
shell='''mkdir bin && printf '#!/bin/sh\\nif [ "$1" = --version ]; then echo gnuplot 5.4 patchlevel 4; exit 0; fi\\nexec cat > "$OUT"\\n' > bin/gnuplot && chmod +x bin/gnuplot
export PATH="$PWD/bin:$PATH" OUT="$PWD/rec"
'''
demo='''
fn main() {
  util::plot::plot_simple(&[(1i32, 1usize << 40), (2, 8)], "x", "y", "t", "p.png");
  let b = std::fs::read("rec").unwrap();
  let pair: Vec<u8> = 1f64.to_le_bytes().iter().chain(40f64.to_le_bytes().iter()).copied().collect();
  assert!(b.windows(16).any(|w| w == &pair[..]), "no point (1, 40)");
}
'''
