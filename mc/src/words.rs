//! Families of machine words: complete for 8 and 16 bits, structured beyond.
use crate::bits::*;

/// All words with at most one run of ones (and their complements), sums and differences of two powers of two with
/// small offsets, each byte value in each lane, and irregular words. Sorted, without duplicates.
pub fn family(w: usize, irregular: usize) -> Vec<u64> {
    if w <= 16 {
        return (0..=mask(w)).collect();
    }
    let m = mask(w);
    let mut v = vec![];
    for a in 0..=w {
        for b in a..=w {
            let x = mask(b) & !mask(a);
            v.push(x);
            v.push(!x & m);
        }
    }
    for a in 0..w {
        for b in 0..w {
            for c in [0u64, 1, u64::MAX] {
                v.push((1u64 << a).wrapping_add(1 << b).wrapping_add(c) & m);
                v.push((1u64 << a).wrapping_sub(1 << b).wrapping_add(c) & m);
            }
        }
    }
    for lane in 0..w / 8 {
        for x in 0..256u64 {
            v.push(x << (8 * lane));
            v.push(m & !(x << (8 * lane)));
            v.push((0x8080_8080_8080_8080 & m & !(255 << (8 * lane))) | x << (8 * lane));
        }
    }
    for i in 0..irregular as u64 {
        v.push(mix(i) & m);
        v.push(mix(i) & mix(i + 77777) & mix(i + 99999) & m);
        v.push((mix(i) | mix(i + 77777) | mix(i + 99999)) & m);
    }
    for i in 0..512u64 {
        v.push(i);
        v.push(m - i);
        v.push((m >> 1).wrapping_add(i).wrapping_sub(256) & m);
    }
    v.sort();
    v.dedup();
    v
}

/// Indices: dense near zero, near every power of two and near 2^64.
pub fn indices(dense: u64) -> Vec<u64> {
    let mut v: Vec<u64> = (0..dense).collect();
    for k in 3..64 {
        for d in 0..=70u64 {
            v.push((1u64 << k).wrapping_add(d));
            v.push((1u64 << k).wrapping_sub(d));
            v.push((3u64 << (k - 1)).wrapping_add(d));
        }
    }
    for d in 0..300 {
        v.push(u64::MAX - d)
    }
    v.sort();
    v.dedup();
    v
}
