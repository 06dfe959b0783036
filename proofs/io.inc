/// std::io::Write: a successful write_all appends exactly its argument.
#[verifier::external_body]
pub struct IoError { x: u8 }
pub trait Write {
    spec fn out(&self) -> Seq<u8>;
    fn write_all(&mut self, b: &[u8]) -> (r: Result<(), IoError>) ensures r is Ok ==> final(self).out() == old(self).out() + b@;
}
