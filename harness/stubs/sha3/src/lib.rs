include!("../../stub.rs");
alg!(Sha3_224, 28);
alg!(Sha3_256, 32);
alg!(Sha3_384, 48);
alg!(Sha3_512, 64);
alg!(Keccak256, 32);
