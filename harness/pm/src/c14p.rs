//! The macro as a whole accepts exactly the strings of the grammar: nothing of its insides is named here.
use super::{call, grammar::*, nd};

fn agree(s: &[u8]) {
    let (mut used, mut next) = (0u32, 0);
    let mut grammatical = true;
    match reference(s) {
        Ok(items) => {
            let mut k = 0;
            while k < items.len {
                if let Item::Arg(p) = items.item[k] {
                    match p.arg {
                        Ref::Next => {
                            used |= 1 << next;
                            next += 1;
                        }
                        Ref::At(n) => {
                            nd::assume(n < 4);
                            used |= 1 << n;
                        }
                        Ref::Name(..) => (),
                    }
                }
                k += 1;
            }
        }
        Err(No::Rejected) => grammatical = false,
        Err(No::Unsupported) => nd::assume(false),
    }
    let used = nd::concrete(used as u8);
    let tail = match used { 0 => "", 1 => ", p", 2 | 3 => ", p, q", 4..=7 => ", p, q, r", _ => ", p, q, r, s" };
    let counted = matches!(used, 0 | 1 | 3 | 7 | 15);
    let text = unsafe { core::str::from_utf8_unchecked(s) };
    nd::panics(!grammatical || !counted, move || call(text, tail));
}
impl Text {
    fn invoke(&self) { agree(self.bytes()) }
}
harnesses! {
    fn q_macro_any() { Text::new().free(3).invoke() }
    fn q_macro_body() { Text::new().byte(b'{').free(2).byte(b'}').invoke() }
    fn q_macro_spec() { Text::new().str(b"{:").free(2).byte(b'}').invoke() }
    fn q_macro_attributes() { Text::new().str(b"{:(bold").free(2).byte(b'}').invoke() }
    fn q_macro_wide() { Text::new().byte(b'{').wide().free(1).byte(b'}').wide().invoke() }
    fn t_macro_any() { Text::new().free(4).invoke() }
    fn t_macro_body() { Text::new().byte(b'{').free(3).byte(b'}').invoke() }
    fn t_macro_spec() { Text::new().str(b"{:").free(3).byte(b'}').invoke() }
}
