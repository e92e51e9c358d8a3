//! keccak-hash's in-place call: the input is the whole buffer, the first 32 bytes receive its hash.
//! (The published crate squeezes data.len() bytes; the compiler reads the first 32.)
const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
    0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
    0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
const ROT: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
const PI: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
fn f(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 { c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20] }
        for x in 0..5 { let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1); for y in 0..5 { a[x + 5 * y] ^= d } }
        let mut t = a[1];
        for i in 0..24 { let u = a[PI[i]]; a[PI[i]] = t.rotate_left(ROT[i]); t = u }
        for y in 0..5 { let r: Vec<u64> = a[5 * y..5 * y + 5].to_vec(); for x in 0..5 { a[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]) } }
        a[0] ^= rc;
    }
}
fn digest(d: &[u8]) -> [u8; 32] {
    let mut p = d.to_vec();
    p.push(1);
    while p.len() % 136 != 0 { p.push(0) }
    *p.last_mut().unwrap() |= 0x80;
    let mut a = [0u64; 25];
    for b in p.chunks(136) { for i in 0..17 { a[i] ^= u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()) } f(&mut a) }
    let mut o = [0u8; 32];
    for i in 0..4 { o[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes()) }
    o
}
pub fn keccak256(data: &mut [u8]) {
    let h = digest(data);
    let n = data.len().min(32);
    data[..n].copy_from_slice(&h[..n]);
}
#[test]
fn empty() { assert_eq!(digest(b"")[..4], [0xc5, 0xd2, 0x46, 0x01]); assert_eq!(digest(b"abc")[..4], [0x4e, 0x03, 0x65, 0x7a]); }
