//! Digests of long all-zero messages (is_md, algorithm, length, digest), computed once with
//! Python's hashlib and OpenSSL's command line tool; see tools/gen_zeros.py.
pub const ZEROS: &[(bool, u16, u64, &str)] = &[
    (true, 5, 536870911, "c6c4834a7b0928878ad48c867a1e24d6"),
    (true, 5, 536870912, "aa559b4e3523a6c931f08f4df52d58f2"),
    (true, 5, 536870913, "ea3b62c6b93cb3625a1fd76777985f5a"),
    (true, 5, 536875912, "6b3b17c1cf5511848756f8f016690ac5"),
    (true, 5, 1073741894, "7c298215567067e48f2ee48d5ed90dda"),
    (true, 5, 2147483651, "3f082206ff2ec77183bd3418249b2d85"),
    (true, 5, 4294967295, "c654ebc4b3472cfa01ade24bbbbc6d3e"),
    (true, 5, 4294967296, "c9a5a6878d97b48cc965c1e41859f034"),
    (true, 5, 4294967297, "f18c798ff5d450dfe4d3acdc12b621ff"),
    (true, 5, 4294967496, "f4d9c8a5c5dd4b0f86bce8cb3ee6c06a"),
    (false, 1, 536870911, "7d32aa572655d797397393e83c8204082f7e71e5"),
    (false, 1, 536870912, "5b088492c9f4778f409b7ae61477dec124c99033"),
    (false, 1, 536870913, "3e1bb536d18494c32e66ef9f479d65bbe0d863de"),
    (false, 1, 536875912, "3c678fa9a886af7eba5ce181d4aa9f8fd28425dc"),
    (false, 1, 1073741894, "82c70abd75ff6ab3fdc6e71ad5813cfe98d3d1b8"),
    (false, 1, 2147483651, "01a42950dfec4733a0b3a33a737adc78c254248e"),
    (false, 1, 4294967295, "d9e8f567727bab9a388f695b6cf6a0977028c959"),
    (false, 1, 4294967296, "1bf99ee9f374e58e201e4dda4f474e570eb77229"),
    (false, 1, 4294967297, "e7d747b75f76e0e41e83b75bce4642816136304f"),
    (false, 1, 4294967496, "1315fddd0970f25082ac0f7f85b63589a09d1c8d"),
    (false, 224, 536870911, "8912e44b605d1058b3c0c2c30f0cac1bfeaccc8ab95cb652b7b10fe0"),
    (false, 224, 536870912, "51c5558279b342c054a1cca5b5d026fd5c504999cfa4d4a7dea3f474"),
    (false, 224, 536870913, "ee98422b717357c0befd88fe5ea456a333238038c756f695465275c3"),
    (false, 224, 536875912, "0fd69c6bf0e2091b65f2f5ec48ae10fd2b1b867c3901387c6506ae57"),
    (false, 224, 1073741894, "659fd7b4b87093aa0df611d18c129bab5da2357cee137b65dc6adeb8"),
    (false, 224, 2147483651, "7b509ecde8b13f78584ed93405824e8a96a17562b032e471666f9065"),
    (false, 224, 4294967295, "07cbd821cae07410496db5dd1fda6ed969632ec272478aff47bcb7d4"),
    (false, 224, 4294967296, "0595e1932b4baa7a58e2d32c7bdfc8e43aa2b499fb0675d7d601dde7"),
    (false, 224, 4294967297, "761135348b7fd75e062566338c0859c7f2e2bd188659630edeb183bc"),
    (false, 224, 4294967496, "a6d6d614194e0f40eb9008d15de9ca282a9b6d852274870272356cc0"),
    (false, 256, 536870911, "bf7f45d9df691bd277948d7f124b87a9f76e16ddb5d8fb25a49df939798f0a01"),
    (false, 256, 536870912, "9acca8e8c22201155389f65abbf6bc9723edc7384ead80503839f49dcc56d767"),
    (false, 256, 536870913, "7c40fe5ce847740d0f0d0cdde3949d6585804cdec3ae61a15b923165699c8137"),
    (false, 256, 536875912, "48f0d5c0a6eef3c560c9623bd17ed74b89648bf66242ea909d0c3682a5b56ab9"),
    (false, 256, 1073741894, "d8016046afd942ed7ce9ccdcc32b8236cf0c597a1361c744944d0de686ee723b"),
    (false, 256, 2147483651, "f10c7766b8ce1111d7772aedad698ab58c843b356a9a6b4ac7ce52dbdc6973e6"),
    (false, 256, 4294967295, "318eea1453f3a536e42d9637db593982c5c297220b2019bd4b7ad08e88d91e4b"),
    (false, 256, 4294967296, "8479e43911dc45e89f934fe48d01297e16f51d17aa561d4d1c216b1ae0fcddca"),
    (false, 256, 4294967297, "fbb82f7b353676bb562eb82157fcf0ea42c36492ca13ee56dbf82c08b6802c5c"),
    (false, 256, 4294967496, "87ea22c3d28eabfc7ffa49ec8536e6c5003e194d2352d172ff0a46b2812aa618"),
    (false, 384, 536870911, "08402572b9ce5e3376b1e262d0198bf154c358db21f3f2bfa57470c7092411fb68d8dafbdd7b0d8a12858c0ce399c3ec"),
    (false, 384, 536870912, "4b631514998787c0a4b9ab56756f6a0ac1dc465b8c80da143a9bbb4981fb72ca2799e57788d6b274930ae5332e4fe53f"),
    (false, 384, 536870913, "243996d96817743f535a722ace62a692ec4324569ef92a7909cddf2be6a16790308955e24500796b7036ef702c81d021"),
    (false, 384, 536875912, "10743e7d130f319f1cbc9202897f45872bb260b1210bd1bb4d79a2aa6e597bd2cb91a69607bc859ddcecc73c63446dba"),
    (false, 384, 1073741894, "74b5e807a040560af6a274a5b6c3e2db5896dcaa67eba40c988b3125b7ccb410af8e77205d3ac7809ff7e2bacd5d20da"),
    (false, 384, 2147483651, "c469b42c43c0cac74e81d79cf12e81d77dd0155d8d0e9399c5a4e9e2c42e7e8120364f4e3af60dd24815cd90bdad734b"),
    (false, 384, 4294967295, "3e55c30ca2619b5ecd69c34dbb7275ef3e8e870c13ade4af92df74549a8e9db7bfc27516c98fa44813f2d0b7de5e49b7"),
    (false, 384, 4294967296, "92484b752d7078365893d7109ce8cea17f6a4819f5cd0d7b57616f51b48fe704782a007699f95f6dabbd6fd1da927f73"),
    (false, 384, 4294967297, "bdf90c9ced0b309792fb47dc6edfd20bf7be401080c97427e8cc19842773da77c91b21ec303371a0e207a224892a131d"),
    (false, 384, 4294967496, "6c5f85de5bfcd596be89d2e3bc4cea9f17cab7b7765c794ca0532668be62b650122a2ddf6fbb59a394f174801b7c0d18"),
    (false, 512, 536870911, "ca38ed29e4b841a2d666805615ccf741e11e9a7dae3c06ae5d5a055bfe1deec4f03adab6e3f86b5c843e008001570a782f9a1b8cf730bb2a370e371452d71abd"),
    (false, 512, 536870912, "df68d060d2adafc2c4794407118f8116d000715233b2550302115556380d1d5b018ebce1c7fa412a8bc5e01e097b33db64d1e9117b3f7bdd8925f09b6594590a"),
    (false, 512, 536870913, "8165468866efe161e7d5394bcb5a72bb5dd30e8584ce00a5f87a89c861464ae5ee9bfbbe542d3a80f86f83f2ebeaf2757beffc96e4c0431395bd94284f3c766e"),
    (false, 512, 536875912, "21c72dd5ad8cf809593bb1e6b96e4a6a20816bf2c7be12f0c79b38a2946f4f8fa94ebc5504d4ca16b16b5a27ee5ac20140a3c29425304caaf332980227b5d260"),
    (false, 512, 1073741894, "71e2b4c437367d77cfc25249d3af8d28b470c6351e0e49d6c8e72dc142ff83cf5bbdf2fe4871e4fbbe9698d2339020b73ca4633212c5607c2412886e8fc23dd7"),
    (false, 512, 2147483651, "a8aba3fa65aa184a329583f99cdc16dc851e0583e68633c44062a0bb3e38b778c37055fc01ae291ed8ff7cd066278f885a1ee3ca6cbb997060dbf0b12773863b"),
    (false, 512, 4294967295, "6626704a24218ba8e3e28bf11fee67fbcf72da8920378d4a6d30d069475fe39b0f9609cfb4d5730b72b94b3567c980f322a5f229467a468acc99a84229682266"),
    (false, 512, 4294967296, "43b5c6f434f71daae80a502212dc8c0e9e52d8b075d589afa430092eaf2d7f960cb097cb5ec656cdeaf87d5a9e61fa8e81665b07f40665fd8b09b6aeccb7f02f"),
    (false, 512, 4294967297, "89fdc1f5c95f86d177144bc417b3513a669dae7f60c9e57fc2b39e0bfcd6dbb9efdf6b339d1762fe3f5e7914f1b64abb6a97a2ceec1bbb2a381e3eb0d3c43781"),
    (false, 512, 4294967496, "d8cc5b234eac5811ef021b335c25c40ce69ed19c036c52b538f99eb75ababa0138a84369207ecf7804ce9f789a1b21f0362441bad021cc811edd7e92d06e55ca"),
    (true, 4, 536870911, "826230f530fc11b3a5c4c06ff6f502cc"),
    (true, 4, 536870912, "1ddb4210749e8db79d0240b66f7a2168"),
    (true, 4, 536870913, "6b20d4598e70dc88e3fe5996920d0eb4"),
    (true, 4, 536875912, "5666f09acf11e9b0287919ca3eee407f"),
    (true, 4, 1073741894, "2c195680a247a8de2e8d97fa40c4babe"),
    (true, 4, 4294967295, "0f913bb2c61ef65a587e93404404fec1"),
    (true, 4, 4294967296, "48e7943b886abe52e70b6ddc4a345667"),
    (true, 4, 4294967297, "cfa129f7157e794786372a7840c8e341"),
];
