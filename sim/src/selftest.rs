//! The simulator's own primitives against published vectors.

use crate::crypto::*;

fn unhex(s: &str) -> Vec<u8> {
    let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn num(s: &str) -> U256 {
    from_be(&unhex(s))
}

pub fn main() -> i32 {
    let mut bad = 0;
    let mut check = |name: &str, got: &[u8], want: &str| {
        if got != unhex(want) {
            eprintln!("selftest: {name} is wrong");
            bad += 1;
        }
    };
    // FIPS 180-4
    check("sha256(abc)", &sha256(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    check("sha256()", &sha256(b""), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855");
    check(
        "sha256(two blocks)",
        &sha256(b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"),
        "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1",
    );
    // RFC 4231
    check(
        "hmac 1",
        &hmac(&[0x0b; 20], b"Hi There"),
        "b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7",
    );
    check(
        "hmac 6",
        &hmac(&[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First"),
        "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54",
    );
    // RFC 5869
    let prk = hkdf_extract(&unhex("000102030405060708090a0b0c"), &[0x0b; 22]);
    check("hkdf extract", &prk, "077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5");
    check(
        "hkdf expand",
        &hkdf_expand(&prk, &unhex("f0f1f2f3f4f5f6f7f8f9"), 42),
        "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865",
    );
    // RFC 8448, simple 1-RTT handshake
    let ss = unhex("b67b7d690cc16c4e75e54213cb2d37b4e9c912bcded9105d42befd59d391ad38");
    check("tls13 key", &expand_label(&ss, "key", b"", 16), "3fce516009c21727d0f2e4e86ee403bc");
    check("tls13 iv", &expand_label(&ss, "iv", b"", 12), "5d313eb2671276ee13000b30");
    // FIPS 197
    let k: [u8; 16] = unhex("000102030405060708090a0b0c0d0e0f").try_into().unwrap();
    let b: [u8; 16] = unhex("00112233445566778899aabbccddeeff").try_into().unwrap();
    check("aes128", &Aes128::new(&k).enc(&b), "69c4e0d86a7b0430d8cdb78070b4c55a");
    // the GCM specification, case 4
    let mut t = Traffic::new(&[0; 32], 0x1301);
    t.aead = Aead::Aes(Aes128::new(&unhex("feffe9928665731c6d6a8f9467308308").try_into().unwrap()));
    let iv: [u8; 12] = unhex("cafebabefacedbaddecaf888").try_into().unwrap();
    let aad = unhex("feedfacedeadbeeffeedfacedeadbeefabaddad2");
    let pt = unhex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39");
    let ct = t.aead.seal(&iv, &aad, &pt);
    check(
        "aes-gcm",
        &ct,
        "42831ec2217774244b7221b784d0d49ce3aa212f2c02a4e035c17e2329aca12e21d514b25466931c7d8f6a5aac84aa051ba30b396a0aac973d58e0915bc94fbc3221a5db94fae95ae7121a47",
    );
    if t.aead.open(&iv, &aad, &ct) != Some(pt) || t.aead.open(&iv, &aad[1..], &ct).is_some() {
        eprintln!("selftest: aes-gcm does not open");
        return 2;
    }
    // RFC 8439, 2.8.2
    let key: [u8; 32] = unhex("808182838485868788898a8b8c8d8e8f909192939495969798999a9b9c9d9e9f").try_into().unwrap();
    t.aead = Aead::ChaCha(key);
    let iv: [u8; 12] = unhex("070000004041424344454647").try_into().unwrap();
    let aad = unhex("50515253c0c1c2c3c4c5c6c7");
    let pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.";
    let ct = t.aead.seal(&iv, &aad, pt);
    check("chacha20-poly1305", &ct[..16], "d31a8d34648e60db7b86afbc53ef7ec2");
    check("chacha20-poly1305 tag", &ct[ct.len() - 16..], "1ae10b594f09e26a7e902ecbd0600691");
    if t.aead.open(&iv, &aad, &ct).as_deref() != Some(&pt[..]) || t.aead.open(&iv, &aad, &ct[1..]).is_some() {
        eprintln!("selftest: chacha20-poly1305 does not open");
        return 2;
    }
    // RFC 6979, A.2.5
    let d = num("C9AFA9D845BA75166B5C215767B1D6934E50C3DB36E89B127B8A622B120F6721");
    let n = num("A6E3C57DD01ABE90086538398355DD4C3B17AA873382B0F24D6129493D8AAD60");
    let q = mul_pt(&d, &g());
    let qa = q.unwrap();
    check(
        "public key",
        &encode_pt(&qa),
        "0460FED4BA255A9D31C961EB74C6356D68C049B8923B61FA6CE669622E60F29FB67903FE1008B8BC99A41AE9E95628BC64F2F1B20C2D7E9F5177A3C294D4462299",
    );
    let h = sha256(b"sample");
    let (r, s) = ecdsa_sign(&h, &d, &n).unwrap();
    check("ecdsa r", &to_be(&r), "EFD48B2AACB6A8FD1140DD9CD45E81D69D2C877B56AAF991C34D0EA84EAF3716");
    check("ecdsa s", &to_be(&s), "F7CB1C942D657C41D436C7A1B6E29F65F3E900DBB9AFF4064DC4AB2F843ACDA8");
    if !ecdsa_verify(&h, &q, &r, &s) || ecdsa_verify(&sha256(b"simple"), &q, &r, &s) || ecdsa_verify(&h, &q, &s, &r) {
        eprintln!("selftest: ecdsa verification is wrong");
        return 2;
    }
    if bad > 0 {
        return 2;
    }
    println!("selftest: ok");
    0
}
