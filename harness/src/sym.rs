//! The symbolic-input interface. Under the symbolic executor these are intercepted; in the native
//! replay binary they are ordinary functions that feed back the recorded values.

extern "C" {
    fn sym_any(p: *mut u8, n: usize, name: *const u8, name_len: usize);
    fn sym_assume(c: bool);
    fn sym_concrete(v: usize) -> usize;
    fn sym_check(name: *const u8, name_len: usize, ok: bool);
    fn sym_cover(name: *const u8, name_len: usize);
    fn sym_memo(name: *const u8, name_len: usize, size: usize);
}

pub fn any<const N: usize>(name: &str) -> [u8; N] {
    let mut v = [0u8; N];
    unsafe { sym_any(v.as_mut_ptr(), N, name.as_ptr(), name.len()) };
    v
}
pub fn any_u8(name: &str) -> u8 { any::<1>(name)[0] }
pub fn any_u16(name: &str) -> u16 { u16::from_le_bytes(any(name)) }
pub fn any_u32(name: &str) -> u32 { u32::from_le_bytes(any(name)) }
pub fn any_u64(name: &str) -> u64 { u64::from_le_bytes(any(name)) }
pub fn any_bool(name: &str) -> bool { any_u8(name) & 1 == 1 }
pub fn assume(c: bool) { unsafe { sym_assume(c) } }
/// A check "PROPERTY|what must hold".
pub fn check(id: &str, ok: bool) { unsafe { sym_check(id.as_ptr(), id.len(), ok) } }
pub fn cover(id: &str) { unsafe { sym_cover(id.as_ptr(), id.len()) } }
/// A value below `n`, made concrete by forking the path.
pub fn choose(n: usize, name: &str) -> usize {
    if n <= 1 {
        return 0;
    }
    let b = any_u8(name);
    assume((b as usize) < n);
    concrete(b as usize)
}
/// The same value, made concrete by forking the path.
pub fn concrete(v: usize) -> usize { unsafe { sym_concrete(v) } }

/// Lets the executor remember commitments of values of a (dependency) type: see the engine.
pub fn memo<T>(mangled: &str) { unsafe { sym_memo(mangled.as_ptr(), mangled.len(), core::mem::size_of::<T>()) } }
/// The same for a function of plain values that returns 32 bytes.
pub fn memo_fn(mangled: &str) { unsafe { sym_memo(mangled.as_ptr(), mangled.len(), 0) } }
