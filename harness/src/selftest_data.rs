//! Generated by tools/gen_selftest.py (hashlib, openssl and Python integers).
pub const ROLL: &[(&str, usize, &str)] = &[
    ("md4", 150, "8f9839ec333f8ef1e02920ed7a77016cf9b4714c0ef44179d5b0b885fe2ce01b"),
    ("md5", 300, "b86361ff71b269f586eb672b1a32cb0d440f97296465f35ed69cc8875565ef0b"),
    ("sha1", 300, "6116b90b3f7b501342384f6db4fa0a6cf098d5040ec1f43f0b6e711917157602"),
    ("sha224", 300, "8806ca19aea6f291795fbdddcf5925a5b8807d685601f2ac7af0f310dac56401"),
    ("sha256", 300, "a84b70125c2f334339011db785e352e452d3c2340eef63ac168977c16f103e71"),
    ("sha384", 400, "7812e6f0ef316cc7f447672307052660ff7f5a17ff6c151c7357769b66d36333"),
    ("sha512", 400, "5d9b50df076adf1e27969f028c082521f67896bdeb0ee40c99a99f7c9c88335c"),
    ("aes", 60, "8a54386d26b745162176936ac6fc53097bf0a8f617a4a6aa2168b726a75526cc"),
    ("rc4", 30, "232da1f79cba951332cb76c704bfd93c3250566a36495c9a72128259fee3f971"),
    ("rc2", 30, "308802ef42c615dc3b6f7c99c3fa4f8b054fc8927eb6365a6a01940c3ade89c6"),
    ("big", 400, "713b5fb452bb5af3c8c333368ae6f3ffdab58d1f8cd293af48909bb2e807c846"),
    ("b64", 200, "23589486a46de35f7ad8f6d2a7b6f8ceb66f3f090b73ec3beaf0e49abca46743"),
];
