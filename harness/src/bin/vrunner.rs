//! Replays one harness on the real code: every answer comes from a file, obligations are tested.
use std::io::Write;
struct St { toks: Vec<(char, Vec<u8>)>, pos: usize, fails: usize }
static mut ST: St = St { toks: Vec::new(), pos: 0, fails: 0 };
#[allow(static_mut_refs)]
fn st() -> &'static mut St { unsafe { &mut ST } }
fn diverge(what: &str) -> ! { println!("VPDIVERGE {}", what); std::io::stdout().flush().ok(); std::process::exit(9) }
fn pop(tag: char) -> Vec<u8> {
    let s = st();
    if s.pos >= s.toks.len() { diverge("out of answers") }
    let (t, v) = s.toks[s.pos].clone();
    s.pos += 1;
    if t != tag { diverge("answer kind") }
    v
}
fn popn() -> usize { let v = pop('C'); let mut b = [0u8; 8]; b.copy_from_slice(&v); usize::from_le_bytes(b) }
unsafe fn put(p: *mut u8, n: usize) {
    let v = pop('B');
    if v.len() != n { diverge("answer length") }
    std::ptr::copy_nonoverlapping(v.as_ptr(), p, n);
}
#[no_mangle] pub unsafe extern "C" fn vp_sym(p: *mut u8, n: usize) { put(p, n) }
#[no_mangle] pub unsafe extern "C" fn vp_choose(_lo: usize, _hi: usize) -> usize { popn() }
#[no_mangle] pub unsafe extern "C" fn vp_param(_i: usize) -> usize { popn() }
#[no_mangle] pub unsafe extern "C" fn vp_assume(c: bool) { if !c { diverge("assumption") } }
#[no_mangle] pub unsafe extern "C" fn vp_check(c: bool, id: usize) { if !c { fail(id, "check") } }
#[no_mangle] pub unsafe extern "C" fn vp_eq(a: *const u8, b: *const u8, n: usize, id: usize) {
    let (x, y) = (std::slice::from_raw_parts(a, n), std::slice::from_raw_parts(b, n));
    if x != y { println!("got  {}", hex(x)); println!("want {}", hex(y)); fail(id, "eq") }
}
#[no_mangle] pub unsafe extern "C" fn vp_out(p: *const u8, n: usize) { println!("OUT {}", hex(std::slice::from_raw_parts(p, n))) }
#[no_mangle] pub unsafe extern "C" fn vp_arg(_p: *const u8, _n: usize) {}
#[no_mangle] pub unsafe extern "C" fn vp_spec(_id: usize, out: *mut u8, cap: usize) -> usize {
    let v = pop('B');
    if v.len() > cap { diverge("spec length") }
    std::ptr::copy_nonoverlapping(v.as_ptr(), out, v.len());
    v.len()
}
#[no_mangle] pub unsafe extern "C" fn vp_perm(_d: usize, _k: usize, _s: *const u8, dst: *mut u8, n: usize) { put(dst, n) }
#[no_mangle] pub unsafe extern "C" fn vp_hash(_i: usize, _s: *const u8, _n: usize, dst: *mut u8, m: usize) { put(dst, m) }
#[no_mangle] pub unsafe extern "C" fn vp_decide(c: bool) -> bool { c }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn fail(id: usize, k: &str) { st().fails += 1; println!("VPFAIL {} {}", id, k); std::io::stdout().flush().ok(); }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&a[2]).expect("answers");
    for l in txt.lines() {
        let mut it = l.split(' ');
        match it.next() {
            Some("C") => { let v: usize = it.next().unwrap().parse().unwrap(); st().toks.push(('C', v.to_le_bytes().to_vec())) }
            Some("B") => {
                let h = it.next().unwrap_or("");
                st().toks.push(('B', (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()))
            }
            _ => {}
        }
    }
    let f = vharness::TABLE.iter().find(|x| x.0 == a[1]).expect("harness name").1;
    f();
    println!("VPDONE fails={} left={}", st().fails, st().toks.len() - st().pos);
    std::process::exit(if st().fails > 0 { 1 } else { 0 });
}
