//! borsh: the crate's own byte writer and reader
use borsh::{BorshDeserialize, BorshSerialize};

struct Buf {
    b: [u8; 512],
    n: usize,
}
impl borsh::io::Write for Buf {
    fn write(&mut self, d: &[u8]) -> borsh::io::Result<usize> {
        self.b[self.n..self.n + d.len()].copy_from_slice(d);
        self.n += d.len();
        Ok(d.len())
    }
    fn flush(&mut self) -> borsh::io::Result<()> {
        Ok(())
    }
}

pub fn roundtrip<T: BorshSerialize + BorshDeserialize>(a: &T, o: &mut T) -> u8 {
    let mut w = Buf { b: [0; 512], n: 0 };
    if a.serialize(&mut w).is_err() {
        return 1;
    }
    let mut rest: &[u8] = &w.b[..w.n + 9]; // something else follows
    match T::deserialize(&mut rest) {
        Ok(v) => {
            *o = v;
            if rest.len() == 9 { 0 } else { 2 }
        }
        Err(_) => 3,
    }
}
