// Stand-in for a hash crate: records what is hashed. The digest starts with the number of the
// record, so that a digest identifies the bytes it was computed from.
use std::sync::Mutex;

pub struct Record {
    pub algorithm: &'static str,
    pub input: Vec<u8>,
}
pub static LOG: Mutex<Vec<Record>> = Mutex::new(Vec::new());

pub trait Update {
    fn update(&mut self, data: &[u8]);
}

pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn chain_update(mut self, data: impl AsRef<[u8]>) -> Self {
        self.update(data);
        self
    }
    fn finalize(self) -> Output;
    fn reset(&mut self);
    fn finalize_reset(&mut self) -> Output {
        let n = core::mem::replace(self, Self::new());
        n.finalize()
    }
    fn digest(data: impl AsRef<[u8]>) -> Output {
        Self::new().chain_update(data).finalize()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Output(pub Vec<u8>);
impl core::ops::Deref for Output {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for Output {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> From<Output> for [u8; N] {
    fn from(o: Output) -> Self {
        let mut r = [0; N];
        r.copy_from_slice(&o.0);
        r
    }
}
impl core::fmt::LowerHex for Output {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        for b in &self.0 {
            write!(f, "{:02x}", b)?;
        }
        Ok(())
    }
}
impl core::fmt::UpperHex for Output {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        for b in &self.0 {
            write!(f, "{:02X}", b)?;
        }
        Ok(())
    }
}

macro_rules! alg {
    ($n:ident, $len:expr) => {
        #[derive(Clone, Default)]
        pub struct $n(Vec<u8>);
        impl Digest for $n {
            fn new() -> Self {
                $n(Vec::new())
            }
            fn update(&mut self, data: impl AsRef<[u8]>) {
                self.0.extend_from_slice(data.as_ref());
            }
            fn finalize(self) -> Output {
                let mut l = LOG.lock().unwrap();
                let n = l.len() as u8;
                l.push(Record { algorithm: stringify!($n), input: self.0 });
                let mut d = vec![0u8; $len];
                d[0] = n;
                d[1] = $len as u8;
                Output(d)
            }
            fn reset(&mut self) {
                self.0.clear();
            }
        }
        impl Update for $n {
            fn update(&mut self, data: &[u8]) {
                self.0.extend_from_slice(data);
            }
        }
        impl std::io::Write for $n {
            fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
                self.0.extend_from_slice(data);
                Ok(data.len())
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
    };
}
