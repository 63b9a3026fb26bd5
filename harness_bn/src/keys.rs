/// (bits, n, d, p, q) with e = 65537
pub const KEYS: &[(usize, &str, &str, &str, &str)] = &[
    (32, "0xa7af4b65", "0x17be4001", "0xcd25", "0xd141"),
    (40, "0x9756f23423", "0x4e1612c5e9", "0xe4ba5", "0xa9627"),
    (41, "0x1a4bb1158cd", "0x4ddd6d4a9d", "0xf60d3", "0x1b5bdf"),
    (42, "0x237754956a1", "0x1902eaaf001", "0x165041", "0x196e61"),
    (43, "0x43b29c257d9", "0x374fb1fd101", "0x192f89", "0x2b01d1"),
    (44, "0xc074661942d", "0x3fcc13df9e1", "0x3e6d79", "0x315355"),
    (45, "0x1719d6982c83", "0x6a0fd4b4f71", "0x3985cf", "0x66cf0d"),
    (46, "0x23978d76209d", "0x228731112ed9", "0x675fcb", "0x582437"),
    (47, "0x42781638c6c5", "0x3807147d5479", "0x5f573b", "0xb279ff"),
    (48, "0x92ae5094b68b", "0x78cfff209471", "0xf603e9", "0x98a253"),
    (56, "0xb8420fd76d6df9", "0x37697e8beb14d5", "0xc64c1fb", "0xede019b"),
    (64, "0xb90adc496ceb5d13", "0x81a54f52dcdc6631", "0xcbc4ab8b", "0xe8796599"),
    (88, "0xad4b00d445b559c15d9633", "0x9b7e02477611581223b6c9", "0xe4bedbe151f", "0xc1f0be6686d"),
    (96, "0x93d0151b83750c39823c7d29", "0x6f6db50bc9bbc4ac66263cf5", "0xc8ccfb064a5b", "0xbc722aaf45cb"),
    (104, "0x9514e6f3bcb7a92a0d7865b071", "0x3773bbe823650000ddbdf06601", "0x9f76a8a213311", "0xef55486ede761"),
    (112, "0x82bd3b2eb90132d94351b8750949", "0x33d13a7eb736c0d4b0d3f24e9fb1", "0xd6f557bf3f3c45", "0x9bb3741f71c335"),
    (360, "0xe1883ff1d0b4dab6ec8985b8982521d4c3f6aac714f5bdc8d8795480951a0c2ca6784fda871818a77f3fa4e7b9", "0x36e5432b48f1bc8ae9e84f742f145ab7bf3b3b365a13af5dadc334027fba6460c8d91414a40a4fc91d15e80c41", "0xf8462de327c22b88734525fe8ce2b7074fd87cccd7cbf", "0xe88ce6f325bf20bb13641315bc977a8dc9caa2d2ca187"),
    (368, "0x86ed7a455860fba61499d84319e661211addcca545ecb64a0fe14b0f35c54eb2b32a4b180ad43f8082931694e46d", "0x5d51bc226008dba3b755dc3434a29904fb7ef1fe510970d436ca4e3776748ce45ea7572b8391d419e98376896f85", "0xf27c3d9629f1025aa4eeef80e6750b4fc71f3dac0a4e9b", "0x8e729d13757450fbc3774bda5bd0c655a9e47b1a9e8597"),
    (504, "0xcde77292f08f52cd33ea7de8860b32b0afcf7aaf2779838ef9695ea1c8d2423ab6577a726351b771ac933afa7ff32c98ed03d9b38e5a71da200866bdd00b25", "0x9474cfb30a270c384fba3e55ac6fde786e0a56167b8bad4324a8c8463599037ab5ddf6730dbad32bbb6303891d4fca44912deadd4c1fcb882e2f34fff30a81", "0xd32fe12573a05c45c008db3e7a9adce08214ade55957be89b72fa5be22938ed", "0xf998968038f8240968eb51cbbabe631456d49d4b5cf733389370f3205abec19"),
    (520, "0xa9c56d9af2ad4748f0772dc2d51ec0bfefb853204d924e7cb62a29c2ca3f79ba0c42b57778b2f9a59b001c9491b947c5639c9298e77c4362446b990bffa4388023", "0x8c0b04fff54184f5210f5e9b424c8cf987588891b40b855d10b3b5212eceafadf89c43af1f48e5d7a52749d34df915ec42efe26f0239fa65bb29d5d89711cb2741", "0xda48a8c7bf3871a764ecf0911a8dbbf2fc193ab74a07b142b1d8c1db166fa69c3", "0xc71ae96a05ea6940342d38a1be76ed370987b1231329920b3e605fc9dcabfca21"),
    (600, "0xadc6c01c1f1b9790852d83cf1ba893f11d7b790fc147516d16081a14340f3d44b93900e92b5158bd13f9a2d0e6ea430ec7c51cefd4bc6277fac612fec90d4670fed06b5b24c834d35b693b", "0xa3abd479281b76cf59801aeb5063a0a3b25eff1105bbc447783ebd41561f1c57c4149a75028c7495f8d1e2bb5471ed9726e7c28c90d3ae329d1f927a3fc6badad43136f17e40e755ac0341", "0xb1f8ac924ac51fd4123160f09f3306196837420a413bbeb38f279135db082cc7f592a14ff71", "0xf9f73b71a7db83532099462f7db9a17cc11787a8b2d03fff1088dfde53bd997a795e236756b"),
    (752, "0x84e231fcfa8bcc2c781747d325ebbcee7574a90d3f616103edad43369cb0e1c896a1c424cbf861e6aa4f046211d8f068bd17ec3314fa084569b6d079d65e55d972271a70fd51ac3666733c110c6f0b0254a98b971ce968ceb8463fe67a13", "0x43f177c7b6bf65fcd2c66c860c9c953483bfcb742794fdcac96aceb40cb7f029e4c2ff8c24f271f443de350a83bf9ca800d89aff869dc5ef7a6e22167fd63d044346b576969079d89287cc93bc9f6a7d5cffdd8b28220dc310ebeb3d67b1", "0xb6257d1006687cbde2f2a4e72ac01d2b76bbab01d60a6099add50028bdf31cb46e8a80ca70e7de460ac8a62d75d299", "0xbac34cb1024c91f989fb91a4d24ccde5f7c8e979eb016f0c6dcf989017bc92f4493eb97e29f20c8cc9eb9d520bc98b"),
    (760, "0x919b636a40abf7c9bee4e3b07affd7d42c071d300cee34f70cd48dad78437d61c7bc0b943be777c8ec6550e8f899a994c28b2e2b24ec0669d91eacc99ceff729f26cf54f00b38708f6cc9e3e16abc65d4599b106ddf39bce721e97714af05d", "0x802cd46fe52c3cbd28c0deba2d1c6886ca971c977eda765f7fb8e05af3021e2e641fe1e58472371cf5141f0c664306520a19d59cab1a4ae6540f4a43c1eab8afe9d7027ff3d5a944e1474410fbffae190ac1e47932fed0695ecdfd21bd8a81", "0x94f9874dd4c3ef1e06ce98648572f9e70d49b5f0cc8be87e9073ea03b908315338789b52be23a78509ace218161ecbd", "0xfa367cd686a2183981a15f1e746636253cc7449d416bfbcf0221f7d5e17188d7b9e40320ca3fa31ad5e955c6b2ddc21"),
];
