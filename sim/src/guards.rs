//! Which function of the server each instrumented basic block belongs to.
use crate::os::GUARD_CAP;

pub const OTHER: u8 = 0;
pub const OWN: u8 = 1;
/// hash-table internals: their path depends on addresses, so they must not count as steps
pub const IGNORE: u8 = 2;
pub static mut KIND: [u8; GUARD_CAP] = [OTHER; GUARD_CAP];
static mut PCS: (*const usize, *const usize) = (core::ptr::null(), core::ptr::null());
pub static mut NAMES: Vec<String> = vec![];

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(b: *const usize, e: *const usize) {
    if b != e { PCS = (b, e); }
}

fn u16at(b: &[u8], o: usize) -> usize { u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as usize }
fn u32at(b: &[u8], o: usize) -> usize { u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize }
fn u64at(b: &[u8], o: usize) -> usize { u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) as usize }

/// function symbols of this executable: (address, size, name)
fn symbols(b: &[u8]) -> Option<Vec<(usize, usize, String)>> {
    if b.len() < 64 || &b[..4] != b"\x7fELF" { return None; }
    let (shoff, shentsize, shnum) = (u64at(b, 40), u16at(b, 58), u16at(b, 60));
    let mut v = vec![];
    for i in 0..shnum {
        let s = shoff + i * shentsize;
        if u32at(b, s + 4) != 2 { continue; }
        let (off, size, link) = (u64at(b, s + 24), u64at(b, s + 32), u32at(b, s + 40));
        let str_off = u64at(b, shoff + link * shentsize + 24);
        for k in 0..size / 24 {
            let y = off + k * 24;
            if b[y + 4] & 15 != 2 { continue; }
            let n = str_off + u32at(b, y);
            let end = n + b[n..].iter().position(|c| *c == 0)?;
            v.push((u64at(b, y + 8), u64at(b, y + 16), String::from_utf8_lossy(&b[n..end]).to_string()));
        }
    }
    v.sort();
    Some(v)
}

pub fn classify() {
    unsafe {
        let (b, e) = PCS;
        if b.is_null() { return; }
        let Ok(exe) = std::fs::read("/proc/self/exe") else { return };
        let Some(sy) = symbols(&exe) else { return };
        let Some(me) = sy.iter().find(|s| s.2 == "__sanitizer_cov_pcs_init") else { return };
        let base = (__sanitizer_cov_pcs_init as *const () as usize).wrapping_sub(me.0);
        let n = (e as usize - b as usize) / 16;
        NAMES = vec![String::new(); n + 1];
        for i in 0..n.min(GUARD_CAP - 1) {
            let pc = (*b.add(2 * i)).wrapping_sub(base);
            let k = sy.partition_point(|s| s.0 <= pc);
            let Some(s) = k.checked_sub(1).map(|k| &sy[k]) else { continue };
            if pc >= s.0 + s.1.max(1) { continue; }
            KIND[i + 1] = if s.2.contains("9hashbrown") || s.2.contains("8hashlink") || s.2.contains("8foldhash") { IGNORE } else if s.2.contains("_4nexo") { OWN } else { OTHER };
            NAMES[i + 1] = s.2.clone();
        }
    }
}
pub fn kind(g: u32) -> u8 { unsafe { KIND[g as usize] } }
pub fn name(g: u32) -> &'static str { unsafe { NAMES.get(g as usize).map(|s| s.as_str()).unwrap_or("") } }
pub fn count() -> (usize, usize, usize) {
    let mut c = [0usize; 3];
    unsafe { for i in 1..=(crate::os::N_GUARDS as usize).min(GUARD_CAP - 1) { c[KIND[i] as usize] += 1; } }
    (c[0], c[1], c[2])
}
