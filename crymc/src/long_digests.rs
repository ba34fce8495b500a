/// Digests of that many zero bytes, from Python's hashlib.
const LONG: [(&str, u64, &str); 8] = [
    ("SHA-256", 536870912, "9acca8e8c22201155389f65abbf6bc9723edc7384ead80503839f49dcc56d767"),
    ("SHA-256", 536870925, "17b17e35a02c4df8f4b39f83f8a6203d91b0b63b071a51b48b7f8ddfb7e76ab7"),
    ("SHA-256", 4294967296, "8479e43911dc45e89f934fe48d01297e16f51d17aa561d4d1c216b1ae0fcddca"),
    ("SHA-256", 4294967309, "f1f10654ded9d3bd3aa408a6638c490b1a4e8814b8074141b13ff0d976d53ccf"),
    ("SHA-512", 536870912, "df68d060d2adafc2c4794407118f8116d000715233b2550302115556380d1d5b018ebce1c7fa412a8bc5e01e097b33db64d1e9117b3f7bdd8925f09b6594590a"),
    ("SHA-512", 536870925, "482d706391227e5d3eb860c1f7e0a00c1625e7ffa8c35026627fa7ce31dd3c1f673b2875d41c119bad6a3dd5c20eed741eaf120590f75ea3678b1a2ad1d6031d"),
    ("SHA-512", 4294967296, "43b5c6f434f71daae80a502212dc8c0e9e52d8b075d589afa430092eaf2d7f960cb097cb5ec656cdeaf87d5a9e61fa8e81665b07f40665fd8b09b6aeccb7f02f"),
    ("SHA-512", 4294967309, "027ca32aa157650e4135a7ccea5e6adfd6723f14b77b6f65300da18e3c948744087887e6de948961e2976b29a38445dd7db7d68d7a8d2dd4e8c25ba235107523"),
];
