//! SHA-256 and SHA-1 from FIPS 180-4, so that digests are not judged by the
//! library that made them.

fn pad(m: &[u8]) -> Vec<u8> {
    let mut v = m.to_vec();
    v.push(0x80);
    while v.len() % 64 != 56 {
        v.push(0);
    }
    v.extend(((m.len() as u64) * 8).to_be_bytes());
    v
}

/// First 32 bits of the fractional part of a root of the n-th prime.
fn frac_root(p: u64, cube: bool) -> u32 {
    // floor(root(p) * 2^32) mod 2^32 by binary search on integers
    let (mut lo, mut hi) = (0u128, 1u128 << 40);
    while lo + 1 < hi {
        let mid = (lo + hi) / 2;
        let le = if cube {
            // mid^3 <= p * 2^96
            mid.checked_mul(mid).and_then(|x| x.checked_mul(mid)).is_some_and(|x| x <= (p as u128) << 96)
        } else {
            mid * mid <= (p as u128) << 64
        };
        if le {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    lo as u32
}

fn primes(n: usize) -> Vec<u64> {
    (2..).filter(|&x: &u64| (2..x).take_while(|d| d * d <= x).all(|d| x % d != 0)).take(n).collect()
}

fn tables() -> &'static (Vec<u32>, Vec<u32>) {
    static T: std::sync::OnceLock<(Vec<u32>, Vec<u32>)> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let p = primes(64);
        (
            p.iter().map(|&p| frac_root(p, true)).collect(),
            p[..8].iter().map(|&p| frac_root(p, false)).collect(),
        )
    })
}

pub fn sha256(m: &[u8]) -> Vec<u8> {
    let (k, h0) = tables();
    let mut h = h0.clone();
    for block in pad(m).chunks(64) {
        let mut w: Vec<u32> = block.chunks(4).map(|b| u32::from_be_bytes(b.try_into().unwrap())).collect();
        for t in 16..64 {
            let s0 = w[t - 15].rotate_right(7) ^ w[t - 15].rotate_right(18) ^ (w[t - 15] >> 3);
            let s1 = w[t - 2].rotate_right(17) ^ w[t - 2].rotate_right(19) ^ (w[t - 2] >> 10);
            w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
        }
        let mut v: [u32; 8] = h.clone().try_into().unwrap();
        for t in 0..64 {
            let [a, b, c, d, e, f, g, hh] = v;
            let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
            let t1 = hh
                .wrapping_add(s1)
                .wrapping_add((e & f) ^ (!e & g))
                .wrapping_add(k[t])
                .wrapping_add(w[t]);
            let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
            let t2 = s0.wrapping_add((a & b) ^ (a & c) ^ (b & c));
            v = [t1.wrapping_add(t2), a, b, c, d.wrapping_add(t1), e, f, g];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub fn sha1(m: &[u8]) -> Vec<u8> {
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for block in pad(m).chunks(64) {
        let mut w: Vec<u32> = block.chunks(4).map(|b| u32::from_be_bytes(b.try_into().unwrap())).collect();
        for t in 16..80 {
            w.push((w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1));
        }
        let mut v = h;
        for (t, wt) in w.iter().enumerate() {
            let [a, b, c, d, e] = v;
            let (f, k) = match t / 20 {
                0 => ((b & c) ^ (!b & d), 0x5a827999u32),
                1 => (b ^ c ^ d, 0x6ed9eba1),
                2 => ((b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc),
                _ => (b ^ c ^ d, 0xca62c1d6),
            };
            let x = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wt);
            v = [x, a, b.rotate_left(30), c, d];
        }
        for i in 0..5 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
