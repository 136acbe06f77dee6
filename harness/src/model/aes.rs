//! AES-128 (FIPS 197) and CBC, computed from the field arithmetic.

fn mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1B } else { 0 };
        b >>= 1;
    }
    r
}

struct Tables {
    sbox: [u8; 256],
    inv: [u8; 256],
}

fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tables {
            sbox: [0; 256],
            inv: [0; 256],
        };
        for x in 0..=255u8 {
            // x^254 is the multiplicative inverse
            let mut inv = 1u8;
            for _ in 0..254 {
                inv = mul(inv, x);
            }
            if x == 0 {
                inv = 0;
            }
            let s = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
            t.sbox[x as usize] = s;
            t.inv[s as usize] = x;
        }
        t
    })
}

fn expand(key: &[u8; 16]) -> [[u8; 16]; 11] {
    let t = tables();
    let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
    let mut rcon = 1u8;
    for i in 4..44 {
        let mut x = w[i - 1];
        if i % 4 == 0 {
            x = [x[1], x[2], x[3], x[0]].map(|b| t.sbox[b as usize]);
            x[0] ^= rcon;
            rcon = mul(rcon, 2);
        }
        let p = w[i - 4];
        w.push([x[0] ^ p[0], x[1] ^ p[1], x[2] ^ p[2], x[3] ^ p[3]]);
    }
    let mut out = [[0u8; 16]; 11];
    for (r, k) in out.iter_mut().enumerate() {
        for c in 0..4 {
            k[4 * c..4 * c + 4].copy_from_slice(&w[4 * r + c]);
        }
    }
    out
}

fn xor(s: &mut [u8; 16], k: &[u8; 16]) {
    for (a, b) in s.iter_mut().zip(k) {
        *a ^= b;
    }
}

pub fn encrypt_block(key: &[u8; 16], block: [u8; 16]) -> [u8; 16] {
    let t = tables();
    let k = expand(key);
    let mut s = block;
    xor(&mut s, &k[0]);
    for (r, rk) in k.iter().enumerate().skip(1) {
        let mut n = [0u8; 16];
        for c in 0..4 {
            for row in 0..4 {
                n[4 * c + row] = t.sbox[s[4 * ((c + row) % 4) + row] as usize];
            }
        }
        if r < 10 {
            for c in 0..4 {
                let a: [u8; 4] = n[4 * c..4 * c + 4].try_into().unwrap();
                for row in 0..4 {
                    n[4 * c + row] = mul(a[row], 2) ^ mul(a[(row + 1) % 4], 3) ^ a[(row + 2) % 4] ^ a[(row + 3) % 4];
                }
            }
        }
        s = n;
        xor(&mut s, rk);
    }
    s
}

pub fn decrypt_block(key: &[u8; 16], block: [u8; 16]) -> [u8; 16] {
    let t = tables();
    let k = expand(key);
    let mut s = block;
    for r in (1..=10).rev() {
        xor(&mut s, &k[r]);
        if r < 10 {
            let mut n = [0u8; 16];
            for c in 0..4 {
                let a: [u8; 4] = s[4 * c..4 * c + 4].try_into().unwrap();
                for row in 0..4 {
                    n[4 * c + row] = mul(a[row], 14)
                        ^ mul(a[(row + 1) % 4], 11)
                        ^ mul(a[(row + 2) % 4], 13)
                        ^ mul(a[(row + 3) % 4], 9);
                }
            }
            s = n;
        }
        let mut n = [0u8; 16];
        for c in 0..4 {
            for row in 0..4 {
                n[4 * ((c + row) % 4) + row] = t.inv[s[4 * c + row] as usize];
            }
        }
        s = n;
    }
    xor(&mut s, &k[0]);
    s
}

/// CBC over the whole blocks; a trailing partial block is left as it is.
pub fn cbc_encrypt(key: &[u8; 16], iv: [u8; 16], data: &[u8]) -> Vec<u8> {
    let mut prev = iv;
    let mut out = vec![];
    let full = data.len() / 16 * 16;
    for b in data[..full].chunks(16) {
        let mut x: [u8; 16] = b.try_into().unwrap();
        xor(&mut x, &prev);
        prev = encrypt_block(key, x);
        out.extend_from_slice(&prev);
    }
    out.extend_from_slice(&data[full..]);
    out
}

pub fn cbc_decrypt(key: &[u8; 16], iv: [u8; 16], data: &[u8]) -> Vec<u8> {
    let mut prev = iv;
    let mut out = vec![];
    let full = data.len() / 16 * 16;
    for b in data[..full].chunks(16) {
        let c: [u8; 16] = b.try_into().unwrap();
        let mut x = decrypt_block(key, c);
        xor(&mut x, &prev);
        prev = c;
        out.extend_from_slice(&x);
    }
    out.extend_from_slice(&data[full..]);
    out
}

pub fn self_test() -> bool {
    // FIPS 197 appendix B
    let key: [u8; 16] = [
        0x2b, 0x7e, 0x15, 0x16, 0x28, 0xae, 0xd2, 0xa6, 0xab, 0xf7, 0x15, 0x88, 0x09, 0xcf, 0x4f, 0x3c,
    ];
    let pt: [u8; 16] = [
        0x32, 0x43, 0xf6, 0xa8, 0x88, 0x5a, 0x30, 0x8d, 0x31, 0x31, 0x98, 0xa2, 0xe0, 0x37, 0x07, 0x34,
    ];
    let ct: [u8; 16] = [
        0x39, 0x25, 0x84, 0x1d, 0x02, 0xdc, 0x09, 0xfb, 0xdc, 0x11, 0x85, 0x97, 0x19, 0x6a, 0x0b, 0x32,
    ];
    encrypt_block(&key, pt) == ct && decrypt_block(&key, ct) == pt
}
