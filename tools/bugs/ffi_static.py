prop="P26"; crate="full"
edits=[("src/extern_use.rs","""  CString::new(tokenized).unwrap().into_raw()""","""  // the previous result is no longer needed once the next document is asked for
  static PREVIOUS: std::sync::atomic::AtomicPtr<c_char> =
    std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
  let words = CString::new(tokenized).unwrap();
  let bytes = words.as_bytes_with_nul();
  let room = PREVIOUS.load(std::sync::atomic::Ordering::SeqCst);
  if !room.is_null() && CStr::from_ptr(room).to_bytes().len() >= bytes.len() {
    std::ptr::copy_nonoverlapping(bytes.as_ptr() as *const c_char, room, bytes.len());
  }
  let raw = words.into_raw();
  PREVIOUS.store(raw, std::sync::atomic::Ordering::SeqCst);
  raw""")]
needs="a second call (with a shorter result) while the caller still holds the string of the first"
breaks="the string of the first call is overwritten by that of the second"
demo=r'''
use std::ffi::{CStr, CString};
fn main() {
  std::fs::write("a.html", "<html><body><div class=\"ltx_para\"><p class=\"ltx_p\">One two three four.</p></div></body></html>").unwrap();
  std::fs::write("b.html", "<html><body><div class=\"ltx_para\"><p class=\"ltx_p\">Five six.</p></div></body></html>").unwrap();
  unsafe {
    let (a, b) = (CString::new("a.html").unwrap(), CString::new("b.html").unwrap());
    let x = llamapun::extern_use::word_tokenize_for_vec2doc(a.as_ptr());
    let first = CStr::from_ptr(x).to_owned();
    let _y = llamapun::extern_use::word_tokenize_for_vec2doc(b.as_ptr());
    assert_eq!(CStr::from_ptr(x), first.as_c_str());
  }
}
'''
