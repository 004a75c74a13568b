include!("../../stub.rs");
alg!(Md5, 16);
