//! RFC 8017 EME-OAEP with SHA-256 and MGF1-SHA-256.
use super::hash::sha256;

pub fn mgf1(seed: &[u8], n: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(n + 32);
    let mut c = 0u32;
    while out.len() < n {
        let mut x = seed.to_vec();
        x.extend_from_slice(&[(c >> 24) as u8, (c >> 16) as u8, (c >> 8) as u8, c as u8]);
        out.extend(sha256(&x));
        c += 1;
    }
    out.truncate(n);
    out
}
/// Masks an arbitrary data block (k - 33 bytes) with an arbitrary seed.
pub fn mask(seed: &[u8; 32], db: &[u8], first: u8) -> Vec<u8> {
    let m = mgf1(seed, db.len());
    let mdb: Vec<u8> = db.iter().zip(&m).map(|(a, b)| a ^ b).collect();
    let sm = mgf1(&mdb, 32);
    let mut out = vec![first];
    out.extend(seed.iter().zip(&sm).map(|(a, b)| a ^ b));
    out.extend(mdb);
    out
}
pub fn encode(label: &[u8], m: &[u8], k: usize, seed: &[u8; 32]) -> Vec<u8> {
    assert!(k >= m.len() + 66);
    let mut db = sha256(label);
    db.resize(k - 33 - 1 - m.len(), 0);
    db.push(1);
    db.extend_from_slice(m);
    mask(seed, &db, 0)
}
/// seed and data block of an encoded message of at least 33 bytes
pub fn unmask(em: &[u8]) -> ([u8; 32], Vec<u8>) {
    let (ms, mdb) = (&em[1..33], &em[33..]);
    let sm = mgf1(mdb, 32);
    let seed: [u8; 32] = std::array::from_fn(|i| ms[i] ^ sm[i]);
    let m = mgf1(&seed, mdb.len());
    (seed, mdb.iter().zip(&m).map(|(a, b)| a ^ b).collect())
}
pub fn decode(label: &[u8], em: &[u8], k: usize) -> Option<Vec<u8>> {
    if em.len() != k || k < 66 || em[0] != 0 {
        return None;
    }
    let (_, db) = unmask(em);
    if db[..32] != sha256(label)[..] {
        return None;
    }
    let mut i = 32;
    while i < db.len() && db[i] == 0 {
        i += 1;
    }
    if i == db.len() || db[i] != 1 {
        return None;
    }
    Some(db[i + 1..].to_vec())
}
