//# label-as-str accept E0000
pub fn f() -> usize { let l = sval::Label::new_owned(String::from("a")); let s: &str = l.as_str(); s.len() }
//# label-as-str reject E0597|E0505|E0515
pub fn f() -> usize { let s: &str; { let l = sval::Label::new_owned(String::from("a")); s = l.as_str(); } s.len() }
//# label-computed accept E0000
pub fn f() -> sval::Label<'static> { let s = String::from("a"); sval::Label::new_owned(s) }
//# label-computed reject E0515|E0597
pub fn f() -> sval::Label<'static> { let s = String::from("a"); sval::Label::new_computed(&s) }
//# label-clone accept E0000
pub fn f(s: &str) -> sval::Label<'_> { let l = sval::Label::new_computed(s); l.clone() }
//# label-clone reject E0515|E0597
pub fn f() -> sval::Label<'static> { let s = String::from("a"); let l = sval::Label::new_computed(&s); l.clone() }
//# label-static accept E0000
pub fn f(l: &sval::Label) -> Option<&'static str> { l.as_static_str() }
//# label-static reject E0521|E0621|E0700
pub fn f(l: &sval::Label) -> &'static str { l.as_str() }
//# label-inner accept E0000
pub fn f<'a>(l: &'a sval::Label<'a>) -> &'a str { l.as_str() }
//# label-inner reject E0521|E0621|E0700
pub fn f2<'a>(l: &sval::Label<'a>) -> &'a str { l.as_str() }
//# fragment-lifetime accept E0000
pub struct V(String);
impl sval::Value for V { fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
  let t = String::from("a"); s.text_begin(None)?; s.text_fragment(&self.0)?; s.text_fragment_computed(&t)?; s.text_end() } }
//# fragment-lifetime reject E0597|E0515|E0716
pub struct V(String);
impl sval::Value for V { fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
  let t = String::from("a"); s.text_begin(None)?; s.text_fragment(&t)?; s.text_end() } }
//# binary-lifetime accept E0000
pub struct V(Vec<u8>);
impl sval::Value for V { fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
  let t = vec![1u8]; s.binary_begin(None)?; s.binary_fragment(&self.0)?; s.binary_fragment_computed(&t)?; s.binary_end() } }
//# binary-lifetime reject E0597|E0515|E0716
pub struct V(Vec<u8>);
impl sval::Value for V { fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
  let t = vec![1u8]; s.binary_begin(None)?; s.binary_fragment(&t)?; s.binary_end() } }
//# value-lifetime accept E0000
pub struct V(String);
impl sval::Value for V { fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
  let t = String::from("a"); s.value_computed(&t) } }
//# value-lifetime reject E0597|E0515|E0716
pub struct V(String);
impl sval::Value for V { fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
  let t = String::from("a"); s.value(&t) } }
//# stream-fn-lifetime accept E0000
pub fn f<'a>(s: &mut impl sval::Stream<'a>) -> sval::Result { let t = String::from("a"); sval::stream_computed(s, &t) }
//# stream-fn-lifetime reject E0597|E0515|E0716
pub fn f<'a>(s: &mut impl sval::Stream<'a>) -> sval::Result { let t = String::from("a"); sval::stream(s, &t) }
//# ref-lifetime accept E0000
pub fn f<'a>(s: &mut impl sval::Stream<'a>, t: &'a str) -> sval::Result { sval_ref::stream_ref(s, sval_ref::Ref::new(t)) }
//# ref-lifetime reject E0597|E0515|E0716
pub fn f<'a>(s: &mut impl sval::Stream<'a>) -> sval::Result { let t = String::from("a"); sval_ref::stream_ref(s, sval_ref::Ref::new(t.as_str())) }
//# to-text accept E0000
use sval::Value as _;
pub fn f(s: &String) -> Option<&str> { s.to_text() }
//# to-text reject E0515|E0597
use sval::Value as _;
pub fn f() -> Option<&'static str> { let s = String::from("a"); s.to_text() }
//# to-binary accept E0000
use sval::Value as _;
pub fn f(s: &[u8]) -> Option<&[u8]> { sval::BinarySlice::new(s).to_binary() }
//# to-binary reject E0515|E0597
use sval::Value as _;
pub fn f() -> Option<&'static [u8]> { let s = vec![1u8]; sval::BinarySlice::new(&s).to_binary() }
//# buf-collect accept E0000
pub fn f() -> sval_buffer::ValueBuf<'static> { let s = String::from("a"); sval_buffer::ValueBuf::collect(&s).unwrap().into_owned().unwrap() }
//# buf-collect reject E0515|E0597
pub fn f() -> sval_buffer::ValueBuf<'static> { let s = String::from("a"); sval_buffer::ValueBuf::collect(&s).unwrap() }
//# buf-value accept E0000
pub fn f() -> sval_buffer::Value<'static> { let s = String::from("a"); sval_buffer::Value::collect(&s).unwrap().into_owned().unwrap() }
//# buf-value reject E0515|E0597
pub fn f() -> sval_buffer::Value<'static> { let s = String::from("a"); sval_buffer::ValueBuf::collect(&s).unwrap().into_value() }
//# buf-to-value accept E0000
pub fn f(b: &sval_buffer::ValueBuf<'static>) -> sval_buffer::Value<'static> { b.to_value() }
//# buf-to-value reject E0515|E0597|E0521|E0621
pub fn f<'a>(b: &sval_buffer::ValueBuf<'a>) -> sval_buffer::Value<'static> { b.to_value() }
//# text-buf-str accept E0000
pub fn f(b: &sval_buffer::TextBuf<'static>) -> Option<&'static str> { b.as_borrowed_str() }
//# text-buf-str reject E0515|E0597|E0521|E0621
pub fn f(b: &sval_buffer::TextBuf<'static>) -> &'static str { b.as_str() }
//# text-buf-local accept E0000
pub fn f2() -> usize { let b = sval_buffer::TextBuf::new(); b.as_str().len() }
//# text-buf-local reject E0515|E0597
pub fn f2() -> &'static str { let b = sval_buffer::TextBuf::new(); b.as_str() }
//# text-buf-push accept E0000
pub fn f() -> sval_buffer::TextBuf<'static> { let s = String::from("a"); let mut b = sval_buffer::TextBuf::new(); b.push_fragment_computed(&s); b }
//# text-buf-push reject E0515|E0597|E0505
pub fn f() -> sval_buffer::TextBuf<'static> { let s = String::from("a"); let mut b = sval_buffer::TextBuf::new(); b.push_fragment(&s); b }
//# text-buf-collect accept E0000
pub fn f(s: &str) -> sval_buffer::TextBuf<'_> { sval_buffer::TextBuf::collect(s).unwrap() }
//# text-buf-collect reject E0515|E0597|E0505
pub fn f() -> sval_buffer::TextBuf<'static> { let s = String::from("a"); sval_buffer::TextBuf::collect(&s).unwrap() }
//# binary-buf-slice accept E0000
pub fn f(b: &sval_buffer::BinaryBuf<'static>) -> Option<&'static [u8]> { b.as_borrowed_slice() }
//# binary-buf-slice reject E0515|E0597|E0521|E0621
pub fn f(b: &sval_buffer::BinaryBuf<'static>) -> &'static [u8] { b.as_slice() }
//# binary-buf-local accept E0000
pub fn f2() -> usize { let b = sval_buffer::BinaryBuf::new(); b.as_slice().len() }
//# binary-buf-local reject E0515|E0597
pub fn f2() -> &'static [u8] { let b = sval_buffer::BinaryBuf::new(); b.as_slice() }
//# binary-buf-push accept E0000
pub fn f() -> sval_buffer::BinaryBuf<'static> { let s = vec![1u8]; let mut b = sval_buffer::BinaryBuf::new(); b.push_fragment_computed(&s); b }
//# binary-buf-push reject E0515|E0597|E0505
pub fn f() -> sval_buffer::BinaryBuf<'static> { let s = vec![1u8]; let mut b = sval_buffer::BinaryBuf::new(); b.push_fragment(&s); b }
//# json-str accept E0000
pub fn f(s: &str) -> &sval_json::JsonStr { sval_json::JsonStr::new(s) }
//# json-str reject E0515|E0597
pub fn f() -> &'static sval_json::JsonStr { let s = String::from("1"); sval_json::JsonStr::new(&s) }
//# json-str-as accept E0000
pub fn f(s: &sval_json::JsonStr) -> &str { s.as_str() }
//# json-str-as reject E0515|E0597|E0621|E0521
pub fn f(s: &sval_json::JsonStr) -> &'static str { s.as_str() }
//# display-borrowed accept E0000
pub fn f(s: &String) -> &sval::Display<String> { sval::Display::new_borrowed(s) }
//# display-borrowed reject E0515|E0597
pub fn f() -> &'static sval::Display<String> { let s = String::from("1"); sval::Display::new_borrowed(&s) }
//# binary-slice accept E0000
pub fn f(s: &[u8]) -> &sval::BinarySlice { sval::BinarySlice::new(s) }
//# binary-slice reject E0515|E0597
pub fn f() -> &'static sval::BinarySlice { let s = vec![1u8]; sval::BinarySlice::new(&s) }
//# map-slice accept E0000
pub fn f(s: &[(u8, u8)]) -> &sval::MapSlice<u8, u8> { sval::MapSlice::new(s) }
//# map-slice reject E0515|E0597
pub fn f() -> &'static sval::MapSlice<u8, u8> { let s = vec![(1u8, 2u8)]; sval::MapSlice::new(&s) }
//# label-thread accept E0000
fn s<T: Send + Sync>() {}
pub fn f() { s::<sval::Label<'static>>(); s::<sval_buffer::ValueBuf<'static>>(); s::<sval_buffer::TextBuf<'static>>(); }
//# label-thread reject E0277
fn s<T: Send + Sync>() {}
pub fn f() { s::<sval::Display<std::rc::Rc<u8>>>(); }
