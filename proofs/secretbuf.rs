//@meta property C12 C11
//@meta assume memory is as the stubs state (allocation, raw writes, zeroize); ManuallyDrop is its content; implicit drops are written out
//@meta assume readers are lawful: read returns at most the length of its buffer
//@meta assume lengths do not overflow usize
#![allow(non_snake_case, unused)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include std.inc
//@include common.inc
//@include strings.inc
// ---- Trusted: memory. A block of `room` bytes at `block`, each byte written or not yet; raw pointers into it ----
pub uninterp spec fn room(block: int) -> nat;
pub tracked struct Mem { pub ghost block: int, pub ghost cells: Seq<Option<u8>> }
impl Mem { pub open spec fn live(&self) -> bool { self.cells.len() == room(self.block) && self.cells.len() <= isize::MAX } }
pub open spec fn written(c: Seq<Option<u8>>, from: int, to: int) -> bool { forall|i: int| from <= i < to ==> #[trigger] c[i] is Some }
pub open spec fn bytes_of(c: Seq<Option<u8>>, from: int, to: int) -> Seq<u8> { Seq::new((to - from) as nat, |i: int| c[from + i]->Some_0) }
/// Every byte overwritten with zero.
pub open spec fn wiped(c: Seq<Option<u8>>) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == Some(0u8) }
/// What was in the blocks given back to the allocator.
pub tracked struct Heap { pub ghost released: Seq<Seq<Option<u8>>> }
impl Heap { pub open spec fn clean(&self) -> bool { forall|i: int| 0 <= i < self.released.len() ==> wiped(#[trigger] self.released[i]) } }
/// *mut u8, *const u8, NonNull<u8>
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Ptr { x: *mut u8 }
impl Ptr {
    pub uninterp spec fn block(&self) -> int;
    pub uninterp spec fn off(&self) -> int;
    #[verifier::external_body]
    pub fn as_ptr(self) -> (r: Ptr) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn cast_const(self) -> (r: Ptr) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn cast_u8(self) -> (r: Ptr) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn new_unchecked(p: Ptr) -> (r: Ptr) ensures r == p { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn add(self, n: usize) -> (r: Ptr)
        requires 0 <= self.off() + n <= room(self.block()),
        ensures r.block() == self.block(), r.off() == self.off() + n { unimplemented!() }
    #[verifier::external_body]
    pub fn lt(self, o: Ptr) -> (r: bool) requires self.block() == o.block() ensures r == (self.off() < o.off()) { unimplemented!() }
    #[verifier::external_body]
    pub fn same(self, o: Ptr) -> (r: bool) requires self.block() == o.block() ensures r == (self.off() == o.off()) { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn write_volatile(self, v: u8, Tracked(m): Tracked<&mut Mem>)
        requires old(m).live(), old(m).block == self.block(), 0 <= self.off() < old(m).cells.len(),
        ensures final(m).block == old(m).block, final(m).cells == old(m).cells.update(self.off(), Some(v)) { unimplemented!() }
}
/// std::slice::from_raw_parts
#[verifier::external_body]
pub unsafe fn from_raw_parts<'a>(p: Ptr, len: usize, Tracked(m): Tracked<&Mem>) -> (r: &'a [u8])
    requires m.live(), m.block == p.block(), 0 <= p.off(), p.off() + len <= m.cells.len(), written(m.cells, p.off(), p.off() + len),
    ensures r@ == bytes_of(m.cells, p.off(), p.off() + len) { unimplemented!() }
#[verifier::external_body]
pub unsafe fn from_raw_parts_mut<'a>(p: Ptr, len: usize, Tracked(m): Tracked<&'a mut Mem>) -> (r: &'a mut [u8])
    requires old(m).live(), old(m).block == p.block(), 0 <= p.off(), p.off() + len <= old(m).cells.len(), written(old(m).cells, p.off(), p.off() + len),
    ensures
        r@ == bytes_of(old(m).cells, p.off(), p.off() + len),
        final(r)@.len() == len, final(m).block == old(m).block,
        final(m).cells == put(old(m).cells, p.off(), final(r)@) { unimplemented!() }
/// `c` with `s` written at `at`.
pub open spec fn put(c: Seq<Option<u8>>, at: int, s: Seq<u8>) -> Seq<Option<u8>> { Seq::new(c.len(), |i: int| if at <= i < at + s.len() { Some(s[i - at]) } else { c[i] }) }
/// Vec<u8>, with the memory it owns.
#[verifier::external_body]
pub struct Buf { x: Vec<u8> }
impl Buf {
    pub uninterp spec fn block(&self) -> int;
    pub uninterp spec fn cells(&self) -> Seq<Option<u8>>;
    pub uninterp spec fn len_(&self) -> nat;
    pub open spec fn view(&self) -> Seq<u8> { bytes_of(self.cells(), 0, self.len_() as int) }
    pub open spec fn ok(&self) -> bool { self.len_() <= self.cells().len() <= isize::MAX && self.cells().len() == room(self.block()) && written(self.cells(), 0, self.len_() as int) }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Buf) ensures r.ok(), r.len_() == 0, r.cells().len() >= n { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut_ptr(&mut self) -> (r: Ptr) ensures r.block() == final(self).block(), r.off() == 0, *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) requires self.ok() ensures r == self.len_() { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) requires self.ok() ensures r == self.cells().len() { unimplemented!() }
    /// Moves to a larger block, releasing the old one as it is, if the capacity does not suffice.
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, s: &[u8], Tracked(h): Tracked<&mut Heap>)
        requires old(self).ok(),
        ensures final(self).ok(), final(self)@ == old(self)@ + s@, final(self).len_() == old(self).len_() + s@.len(),
            old(self).len_() + s@.len() <= old(self).cells().len() ==> final(h).released == old(h).released && final(self).cells().len() == old(self).cells().len(),
            old(self).len_() + s@.len() > old(self).cells().len() ==> final(h).released == old(h).released.push(old(self).cells()) { unimplemented!() }
    #[verifier::external_body]
    pub fn spare(&self) -> (r: usize) requires self.ok() ensures r == self.cells().len() - self.len_() { unimplemented!() }
    /// spare_capacity_mut()[i].write(b)
    #[verifier::external_body]
    pub fn spare_write(&mut self, i: usize, b: u8)
        requires old(self).ok(), old(self).len_() + i < old(self).cells().len(),
        ensures final(self).ok(), final(self).block() == old(self).block(), final(self).len_() == old(self).len_(), final(self).cells() == old(self).cells().update(old(self).len_() + i, Some(b)) { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn set_len(&mut self, n: usize)
        requires old(self).ok(), n <= old(self).cells().len(), written(old(self).cells(), 0, n as int),
        ensures final(self).ok(), final(self).block() == old(self).block(), final(self).len_() == n, final(self).cells() == old(self).cells() { unimplemented!() }
    /// Takes over the block; `m` is not to be used again.
    #[verifier::external_body]
    pub unsafe fn from_raw_parts(p: Ptr, len: usize, cap: usize, Tracked(m): Tracked<&mut Mem>) -> (r: Buf)
        requires old(m).live(), old(m).block == p.block(), p.off() == 0, cap == old(m).cells.len(), len <= cap, written(old(m).cells, 0, len as int),
        ensures r.ok(), r.block() == p.block(), r.len_() == len, r.cells() == old(m).cells, !final(m).live() { unimplemented!() }
    #[verifier::external_body]
    pub fn drop(self, Tracked(h): Tracked<&mut Heap>) ensures final(h).released == old(h).released.push(self.cells()) { unimplemented!() }
    #[verifier::external_body]
    pub fn forget(self) -> (r: Tracked<Mem>) requires self.ok() ensures r@.block == self.block(), r@.cells == self.cells(), r@.live() { unimplemented!() }
}
/// The address of a slice that lies at `at` in the block of `m`.
#[verifier::external_body]
pub fn slice_ptr(s: &[u8], Tracked(m): Tracked<&Mem>, Ghost(at): Ghost<int>) -> (r: Ptr) ensures r.block() == m.block, r.off() == at { unimplemented!() }
#[verifier::external_body]
pub const fn size_of_u8() -> (r: usize) ensures r == 1 { 1 }
pub fn u8_default() -> (r: u8) ensures r == 0 { 0 }
#[verifier::external_body]
pub fn slice_to_mut<'a>(s: &'a mut [u8], n: usize) -> (r: &'a mut [u8])
    requires n <= old(s)@.len(),
    ensures r@ == old(s)@.subrange(0, n as int), final(r)@.len() == n, final(s)@ == final(r)@ + old(s)@.subrange(n as int, old(s)@.len() as int) { &mut s[..n] }
#[verifier::external_body]
pub fn split_last_mut<'a>(s: &'a mut [u8]) -> (r: Option<(&'a mut u8, &'a mut [u8])>)
    ensures match r {
        Some((l, w)) => old(s)@.len() > 0 && w@ == old(s)@.drop_last() && final(w)@.len() == w@.len() && final(s)@ == final(w)@.push(*final(l)),
        None => old(s)@.len() == 0 && final(s)@ == old(s)@ } { unimplemented!() }
#[verifier::external_body]
pub fn copy_slice(d: &mut [u8], s: &[u8]) requires old(d)@.len() == s@.len() ensures final(d)@ == s@ { d.copy_from_slice(s) }
/// std::io::Read: the bytes to come; `prompt` for a reader that gives all it has at once; `ended` after it reported its end.
pub trait Read {
    spec fn coming(&self) -> Seq<u8>;
    spec fn prompt(&self) -> bool;
    spec fn ended(&self) -> bool;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures
            final(buf)@.len() == old(buf)@.len(), final(self).prompt() == old(self).prompt(),
            match r {
                Ok(n) => n <= old(buf)@.len() && n <= old(self).coming().len() && final(buf)@.subrange(0, n as int) + final(self).coming() == old(self).coming() && (n == 0 && old(buf)@.len() > 0 ==> final(self).ended()),
                Err(_) => final(self).coming() == old(self).coming() },
            old(self).prompt() ==> r is Ok && (r->Ok_0 == old(buf)@.len() || r->Ok_0 == old(self).coming().len());
}
#[verifier::external_body]
pub struct IoError { x: u8 }
/// std::io::Cursor
#[verifier::external_body]
pub struct Cursor<'a> { x: &'a [u8] }
impl<'a> Cursor<'a> {
    #[verifier::external_body]
    pub fn new(s: &'a [u8]) -> (r: Cursor<'a>) ensures r.coming() == s@, r.prompt() { unimplemented!() }
}
impl<'a> Read for Cursor<'a> {
    uninterp spec fn coming(&self) -> Seq<u8>;
    uninterp spec fn prompt(&self) -> bool;
    uninterp spec fn ended(&self) -> bool;
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, IoError> { unimplemented!() }
}
/// An iterator of bytes, with a hint that may say anything an allocation can hold.
pub trait ByteIter {
    spec fn rest(&self) -> Seq<u8>;
    fn next(&mut self) -> (r: Option<u8>) ensures match r { Some(b) => old(self).rest().len() > 0 && b == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() };
    fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 < isize::MAX;
}
pub fn umax(a: usize, b: usize) -> (r: usize) { if a > b { a } else { b } }
pub fn umin(a: usize, b: usize) -> (r: usize) { if a < b { a } else { b } }
/// Bytes::from_secret and Bytes::to_vec, proved in bytes_impl.rs.
#[verifier::external_body]
pub fn bytes_from_secret<'a>(v: Buf) -> (r: Bytes<'a>) ensures r@ == v@, r.is_sec() { unimplemented!() }
#[verifier::external_body]
pub fn bytes_to_vec<'a>(b: Bytes<'a>) -> (r: Buf) ensures r.ok(), r@ == b@ { unimplemented!() }
// ---- OwnedSlice, at u8 (its only instance) ----
//@item src/util/ownedslice.rs :: pub struct OwnedSlice<T>
//@sub /OwnedSlice<T>\(NonNull<T>, usize, bool\)/ => OwnedSlice(Ptr, usize, bool, Tracked<Mem>) ## instance at u8, with the memory it points to
//@end
impl OwnedSlice {
    pub closed spec fn inv(&self) -> bool { self.3@.live() && self.0.block() == self.3@.block && self.0.off() == 0 && self.1 == self.3@.cells.len() }
    pub closed spec fn cells(&self) -> Seq<Option<u8>> { self.3@.cells }
    pub closed spec fn wipes(&self) -> bool { self.2 }
    pub closed spec fn dead(&self) -> bool { !self.3@.live() }
//@fn src/util/ownedslice.rs :: impl<T> OwnedSlice<T> :: from_vec
//@ret r
//@spec
        requires value.ok(),
        ensures r.0.inv(), r.1 == value.len_(), r.0.cells() == value.cells(), !r.0.wipes(),
//@sub /Vec<T>/ => Buf ## instance at u8
//@sub /NonNull::new/ => Ptr::new ## raw pointer
//@sub /std::mem::forget\(value\);/ => let mem = value.forget(); ## the memory outlives the Vec
//@sub /OwnedSlice\(data, cap, false\)/ => OwnedSlice(data, cap, false, mem) ## ghost field
//@end
//@fn src/util/ownedslice.rs :: impl<T> OwnedSlice<T> :: as_slice
//@ret r
//@spec
        requires self.inv(), len <= self.cells().len(), written(self.cells(), 0, len as int),
        ensures r@ == bytes_of(self.cells(), 0, len as int),
//@sub /&'a \[T\]/ => &'a [u8] ## instance at u8
//@sub /std::slice::from_raw_parts\((.*), len\)/ => from_raw_parts(\1, len, Tracked(self.3.borrow())) ## raw pointer
//@end
//@fn src/util/ownedslice.rs :: impl<T> OwnedSlice<T> :: into_vec_with_len
//@ret r
//@spec
        requires self.inv(), len <= self.cells().len(), written(self.cells(), 0, len as int),
        ensures r.ok(), r@ == bytes_of(self.cells(), 0, len as int), r.cells() == self.cells(),
//@sub /Vec<T>/ => Buf ## instance at u8
//@sub /std::mem::forget\(self\);/ => let Tracked(mut mem) = self.3; ## the memory outlives self
//@sub /Vec::from_raw_parts\(ptr, len, cap\)/ => Buf::from_raw_parts(ptr, len, cap, Tracked(&mut mem)) ## raw pointer
//@end
//@fn src/util/ownedslice.rs :: impl<T> OwnedSlice<T> :: into_vec_with_slice
//@ret r
//@spec
        requires self.inv(), 0 <= at, at + slice@.len() <= self.cells().len(), written(self.cells(), at, at + slice@.len()), slice@ == bytes_of(self.cells(), at, at + slice@.len()),
        ensures r.0.ok(), r.0@ == slice@, r.1 matches Some(o) ==> o.inv() && o.cells() == self.cells() && o.wipes() == self.wipes(),
//@sub /slice: &\[T\]\) -> \(Vec<T>/ => slice: &[u8], Ghost(at): Ghost<int>) -> (Buf ## instance at u8; `at` is where slice lies in self
//@sub /slice\.as_ptr\(\)/ => slice_ptr(slice, Tracked(self.3.borrow()), Ghost(at)) ## raw pointer
//@sub /slice_start == data_start/ => slice_start.same(data_start) ## raw pointer
//@sub /std::mem::forget\(self\);/ => let Tracked(mut mem) = self.3; ## the memory outlives self
//@sub /Vec::from_raw_parts\(data_start, slice\.len\(\), capacity\)/ => Buf::from_raw_parts(data_start, slice.len(), capacity, Tracked(&mut mem)) ## raw pointer
//@sub /Vec::with_capacity/ => Buf::with_capacity ## instance at u8
//@sub /for \(src, dest\) in std::iter::zip\(slice, retval\.spare_capacity_mut\(\)\)/ => let mut i = 0; while i < slice.len() && i < retval.spare() ## zip as an index loop
//@sub /dest\.write\(\(src as \*const T\)\.read\(\)\);/ => let src = slice[i]; retval.spare_write(i, src); i += 1; ## zip as an index loop
//@loop 0
                invariant retval.ok(), retval.len_() == 0, retval.cells().len() >= slice@.len(), 0 <= i <= slice@.len(), forall|j: int| 0 <= j < i ==> #[trigger] retval.cells()[j] == Some(slice@[j]),
                decreases slice@.len() - i,
//@before /\(retval, Some\(self\)\)/
            assert(retval@ =~= slice@);
//@before /\(Vec::from_raw_parts/
            assert(bytes_of(self.3@.cells, 0, slice@.len() as int) =~= slice@);
//@end
//@fn src/util/ownedslice.rs :: impl<T> OwnedSlice<T> :: capacity
//@ret r
//@spec
        requires self.inv(),
        ensures r == self.cells().len(),
//@end
//@fn src/util/ownedslice.rs :: impl<T> OwnedSlice<T> :: write_capacity
//@ret r
//@spec
        requires self.inv(), len <= self.cells().len(),
        ensures r == self.cells().len() - len,
//@end
//@fn src/util/ownedslice.rs :: impl<T> OwnedSlice<T> :: as_write_slice
//@ret r
//@spec
        requires old(self).inv(), len <= old(self).cells().len(), written(old(self).cells(), len as int, old(self).cells().len() as int),
        ensures
            r@ == bytes_of(old(self).cells(), len as int, old(self).cells().len() as int), final(r)@.len() == r@.len(),
            final(self).inv(), final(self).wipes() == old(self).wipes(), final(self).cells() == put(old(self).cells(), len as int, final(r)@),
//@sub /&mut \[T\]/ => &mut [u8] ## instance at u8
//@sub /std::slice::from_raw_parts_mut\(cur, len\)/ => from_raw_parts_mut(cur, len, Tracked(self.3.borrow_mut())) ## raw pointer
//@end
//@fn src/util/ownedslice.rs :: impl<T: Default + Copy> OwnedSlice<T> :: wipe_on_drop
//@ret r
//@spec
        requires self.inv(),
        ensures r.inv(), r.cells() == self.cells(), r.wipes(),
//@sub /mut self/ => self ## no `mut self` in Verus
//@sub /self\.2 = true;\s*self\b/ => let mut this = self; this.2 = true; this ## no `mut self` in Verus
//@end
//@fn src/util/ownedslice.rs :: impl<T: Default + Copy> OwnedSlice<T> :: init_capacity
//@spec
        requires old(self).inv(), len <= old(self).cells().len(),
        ensures
            final(self).inv(), final(self).wipes() == old(self).wipes(), final(self).cells().len() == old(self).cells().len(), written(final(self).cells(), len as int, final(self).cells().len() as int),
            forall|i: int| 0 <= i < len ==> #[trigger] final(self).cells()[i] == old(self).cells()[i],
//@sub /T::default\(\)/ => u8_default() ## instance at u8
//@sub /cur < end/ => cur.lt(end) ## raw pointer
//@sub /write_volatile\(default\)/ => write_volatile(default, Tracked(self.3.borrow_mut())) ## raw pointer
//@loop 0
            invariant
                self.inv(), self.2 == old(self).2, self.1 == old(self).1, cur.block() == end.block() == self.0.block(), len <= cur.off() <= end.off() == self.1,
                self.3@.cells.len() == old(self).3@.cells.len(), written(self.3@.cells, len as int, cur.off()),
                forall|i: int| 0 <= i < len ==> #[trigger] self.3@.cells[i] == old(self).3@.cells[i],
            decreases end.off() - cur.off(),
//@end
//@fn src/util/ownedslice.rs :: impl<T: Default + Copy> OwnedSlice<T> :: reinit_all
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self).wipes() == old(self).wipes(), final(self).cells().len() == old(self).cells().len(), wiped(final(self).cells()),
//@sub /T::default\(\)/ => u8_default() ## instance at u8
//@sub /cur < end/ => cur.lt(end) ## raw pointer
//@sub /write_volatile\(default\)/ => write_volatile(default, Tracked(self.3.borrow_mut())) ## raw pointer
//@loop 0
            invariant
                self.inv(), self.2 == old(self).2, self.1 == old(self).1, cur.block() == end.block() == self.0.block(), 0 <= cur.off() <= end.off() == self.1,
                self.3@.cells.len() == old(self).3@.cells.len(),
                default == 0u8, forall|i: int| 0 <= i < cur.off() ==> #[trigger] self.3@.cells[i] == Some(0u8),
            decreases end.off() - cur.off(),
//@end
//@fn src/util/ownedslice.rs :: impl<T> Drop for OwnedSlice<T> :: drop
//@spec
        requires old(self).inv(),
        ensures final(heap).released.len() == old(heap).released.len() + 1, final(heap).released.drop_last() == old(heap).released, old(self).wipes() ==> wiped(final(heap).released.last()), !old(self).wipes() ==> final(heap).released.last() == old(self).cells(),
//@sub /fn drop\(&mut self\)/ => pub fn drop(&mut self, Tracked(heap): Tracked<&mut Heap>) ## ghost heap
//@sub /cast::<u8>/ => cast_u8 ## raw pointer
//@sub /self\.1 \* std::mem::size_of::<T>\(\)/ => (self.1 * size_of_u8()) ## instance at u8
//@sub /write_volatile\(0\)/ => write_volatile(0, Tracked(self.3.borrow_mut())) ## raw pointer
//@sub /std::mem::drop\(Vec::from_raw_parts\((.*), 0, self\.1\)\)/ => Buf::from_raw_parts(\1, 0, self.1, Tracked(self.3.borrow_mut())).drop(Tracked(heap)) ## raw pointer
//@loop 0
                    invariant
                        self.inv(), self.2 == old(self).2, self.0 == old(self).0, self.1 == old(self).1, start == self.0, self.3@.cells.len() == old(self).3@.cells.len(),
                        forall|i: int| 0 <= i < idx ==> #[trigger] self.3@.cells[i] == Some(0u8),
//@post
        proof { assert(heap.released.drop_last() =~= old(heap).released); }
//@end
}
// ---- SecretBuf ----
//@item src/string/secretbuf.rs :: pub struct SecretBuf
//@sub /std::mem::ManuallyDrop<OwnedSlice<u8>>/ => OwnedSlice ## a ManuallyDrop is what it holds; no implicit drop
//@end
impl SecretBuf {
    pub closed spec fn inv(&self) -> bool { self.data.inv() && self.len <= self.data.cells().len() && written(self.data.cells(), 0, self.data.cells().len() as int) }
    pub closed spec fn view(&self) -> Seq<u8> { bytes_of(self.data.cells(), 0, self.len as int) }
    pub closed spec fn cap(&self) -> nat { self.data.cells().len() }
//@fn src/string/secretbuf.rs :: impl SecretBuf :: is_empty
//@ret r
//@spec
        requires self.inv(),
        ensures r == (self@.len() == 0),
//@end
//@fn src/string/secretbuf.rs :: impl SecretBuf :: with_capacity
//@ret r
//@spec
        ensures r.inv(), r@ == Seq::<u8>::empty(), r.cap() >= count,
//@sub /Vec::with/ => Buf::with ## with its memory
//@sub /std::mem::ManuallyDrop::new\(data\)/ => data ## no implicit drop
//@end
//@fn src/string/secretbuf.rs :: impl SecretBuf :: as_bytes
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == self@, r.is_sec(),
//@end
//@fn src/string/secretbuf.rs :: impl SecretBuf :: into_bytes
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == self@, r.is_sec(),
//@sub /unsafe \{ std::mem::ManuallyDrop::take\(&mut self\.data\) \}/ => self.data ## no implicit drop
//@sub /mut self/ => self ## moved out instead
//@sub /std::mem::forget\(self\);/ => ## no implicit drop
//@sub /Bytes::from_secret/ => bytes_from_secret ## by its contract
//@end
//@fn src/string/secretbuf.rs :: impl SecretBuf :: reserve
//@spec
        requires old(self).inv(), old(heap).clean(), old(self)@.len() + len <= usize::MAX,
        ensures final(self).inv(), final(heap).clean(), final(self)@ == old(self)@, final(self).cap() >= final(self)@.len() + len,
//@sub /len: usize\)/ => len: usize, Tracked(heap): Tracked<&mut Heap>) ## ghost heap
//@sub /std::mem::ManuallyDrop::new\(unsafe \{/ => (unsafe { ## no implicit drop
//@sub /Vec::with/ => Buf::with ## with its memory
//@sub /extend_from_slice\((.*)\);/ => extend_from_slice(\1, Tracked(heap)); ## ghost heap
//@sub /std::mem::ManuallyDrop::into_inner\(resized\);/ => resized.drop(Tracked(heap)); ## where it is dropped
//@before /std::mem::swap/
            proof {
                assert(bytes_of(resized.cells(), 0, self.len as int) =~= old(self)@);
                assert(written(resized.cells(), 0, resized.cells().len() as int));
            }
//@post
        proof { assert(heap.clean()) by { if heap.released.len() > old(heap).released.len() { assert forall|i: int| 0 <= i < heap.released.len() implies wiped(#[trigger] heap.released[i]) by { if i < heap.released.len() - 1 { assert(heap.released[i] == heap.released.drop_last()[i]); } } } } }
//@end
//@fn src/string/secretbuf.rs :: impl SecretBuf :: push
//@spec
        requires old(self).inv(), old(heap).clean(), old(self)@.len() + 1 + extra <= usize::MAX,
        ensures final(self).inv(), final(heap).clean(), final(self)@ == old(self)@.push(byte),
//@sub /extra: usize\)/ => extra: usize, Tracked(heap): Tracked<&mut Heap>) ## ghost heap
//@sub /self\.reserve\(1 \+ extra\)/ => self.reserve(1 + extra, Tracked(heap)) ## ghost heap
//@sub /unwrap_unchecked\(\)/ => unwrap() ## must be there either way
//@post
        proof { assert(self@ =~= old(self)@.push(byte)); }
//@end
//@fn src/string/secretbuf.rs :: impl SecretBuf :: push_cstr
//@spec
        requires old(self).inv(), old(heap).clean(), old(self)@.len() + slice@.len() + 1 <= usize::MAX,
        ensures final(self).inv(), final(heap).clean(), final(self)@ == (old(self)@ + slice@).push(0u8),
//@sub /slice: &\[u8\]\)/ => slice: &[u8], Tracked(heap): Tracked<&mut Heap>) ## ghost heap
//@sub /self\.reserve\(len\)/ => self.reserve(len, Tracked(heap)) ## ghost heap
//@sub /unsafe \{ &mut self\.data\.as_write_slice\(self\.len\)\[\.\.len\] \}\s*\.split_last_mut\(\)/ => split_last_mut(slice_to_mut(unsafe { self.data.as_write_slice(self.len) }, len)) ## by their contracts
//@sub /write_slice\.copy_from_slice\(slice\)/ => copy_slice(write_slice, slice) ## by its contract
//@sub /b'\\0'/ => 0u8 ## literal
//@post
        proof { assert(self@ =~= (old(self)@ + slice@).push(0u8)); }
//@end
//@fn src/string/secretbuf.rs :: impl SecretBuf :: push_slice
//@spec
        requires old(self).inv(), old(heap).clean(), old(self)@.len() + slice@.len() <= usize::MAX,
        ensures final(self).inv(), final(heap).clean(), final(self)@ == old(self)@ + slice@,
//@sub /slice: &\[u8\]\)/ => slice: &[u8], Tracked(heap): Tracked<&mut Heap>) ## ghost heap
//@sub /&mut std::io::Cursor::new\(slice\)\)/ => &mut Cursor::new(slice), Tracked(heap)) ## ghost heap
//@end
//@fn src/string/secretbuf.rs :: impl SecretBuf :: read_from
//@ret r
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@spec
        requires old(self).inv(), old(heap).clean(), old(self)@.len() + expect <= usize::MAX,
        ensures
            final(self).inv(), final(heap).clean(),
            match r {
                Ok(n) => n <= expect && n <= old(read).coming().len() && final(self)@ == old(self)@ + old(read).coming().subrange(0, n as int) && final(read).coming() == old(read).coming().subrange(n as int, old(read).coming().len() as int) && (n == expect || final(read).ended()),
                Err(_) => final(self)@ == old(self)@ },
            old(read).prompt() ==> r is Ok && (r->Ok_0 == expect || r->Ok_0 == old(read).coming().len()),
//@sub /pub fn read_from\(/ => pub fn read_from<R: Read>( ## impl Trait
//@sub /read: &mut \(impl std::io::Read \+ \?Sized\),/ => read: &mut R, Tracked(heap): Tracked<&mut Heap>, ## impl Trait, ghost heap
//@sub /std::io::Error/ => IoError ## path
//@sub /self\.reserve\(expect\)/ => self.reserve(expect, Tracked(heap)) ## ghost heap
//@sub /unsafe \{ &mut self\.data\.as_write_slice\(self\.len\)\[\.\.expect\] \}/ => slice_to_mut(unsafe { self.data.as_write_slice(self.len) }, expect) ## by its contract
//@sub /read\.read\(write_to\)\?/ => match read.read(write_to) { Ok(n) => n, Err(e) => { proof { assert(bytes_of(after_borrow(self.data).cells(), 0, mid.len as int) =~= old(self)@); } return Err(e) } } ## no conversion
//@loop 0
            invariant
                bytes_read <= expect, write_to@.len() == final(write_to)@.len() == expect - bytes_read, bytes_read <= old(read).coming().len(),
                read.coming() == old(read).coming().subrange(bytes_read as int, old(read).coming().len() as int), read.prompt() == old(read).prompt(),
                after_borrow(self.data).cells() == put(put(mid.data.cells(), mid.len as int, old(read).coming().subrange(0, bytes_read as int)), mid.len + bytes_read, final(write_to)@),
            ensures bytes_read == expect || read.ended(), old(read).prompt() ==> bytes_read == expect || read.coming().len() == 0,
            decreases expect - bytes_read,
//@before /let mut write_to/
        let ghost mid = *self;
//@before /let last_read/
            let ghost (b0, c0) = (bytes_read as int, read.coming());
            let ghost C = old(read).coming();
//@before /write_to = write_to/
            proof {
                let n = last_read as int;
                assert(read.coming() =~= (write_to@.subrange(0, n) + read.coming()).subrange(n, c0.len() as int));
                assert(write_to@.subrange(0, n) =~= (write_to@.subrange(0, n) + read.coming()).subrange(0, n));
            }
//@before /bytes_read \+= last_read/
            proof {
                let b1 = b0 + last_read;
                assert(read.coming() =~= C.subrange(b1, C.len() as int));
                assert(C.subrange(0, b1) =~= C.subrange(0, b0) + c0.subrange(0, last_read as int));
                assert(after_borrow(self.data).cells() =~= put(put(mid.data.cells(), mid.len as int, C.subrange(0, b1)), mid.len + b1, final(write_to)@));
            }
//@end
//@fn src/string/secretbuf.rs :: impl SecretBuf :: clear
//@spec
        requires old(self).inv(),
        ensures final(self).inv(), final(self)@ == Seq::<u8>::empty(), final(self).cap() == old(self).cap(),
//@post
        proof { assert(self@ =~= Seq::empty()); }
//@end
//@fn src/string/secretbuf.rs :: impl Default for SecretBuf :: default
//@ret r
//@spec
        ensures r.inv(), r@ == Seq::<u8>::empty(),
//@end
//@fn src/string/secretbuf.rs :: impl From<Vec<u8>> for SecretBuf :: from
//@ret r
//@spec
        requires value.ok(),
        ensures r.inv(), r@ == value@,
//@sub /Vec<u8>/ => Buf ## with its memory
//@sub /std::mem::ManuallyDrop::new\(data\)/ => data ## no implicit drop
//@before /SecretBuf \{ data/
        proof { assert(bytes_of(data.cells(), 0, len as int) =~= value@); }
//@end
//@fn src/string/secretbuf.rs :: impl FromIterator<u8> for SecretBuf :: from_iter
//@ret r
//@spec
        requires iter.rest().len() < isize::MAX, old(heap).clean(),
        ensures r.inv(), final(heap).clean(), r@ == iter.rest(),
//@sub /from_iter<T: IntoIterator<Item = u8>>\(iter: T\)/ => from_iter<T: ByteIter>(iter: T, Tracked(heap): Tracked<&mut Heap>) ## ghost heap
//@sub /iter\.into_iter\(\)/ => iter ## already an iterator
//@sub /std::cmp::max/ => umax ## by its contract
//@sub /std::cmp::min/ => umin ## by its contract
//@sub /iter\.size_hint\(\)\.0\);/ => iter.size_hint().0, Tracked(heap)); ## ghost heap
//@head
        let ghost it = iter;
//@loop 0
            invariant retval.inv(), heap.clean(), retval@ + iter.rest() == it.rest(), it.rest().len() < isize::MAX,
            ensures iter.rest().len() == 0,
            decreases iter.rest().len(),
//@end
//@fn src/string/secretbuf.rs :: impl Clone for SecretBuf :: clone
//@ret r
//@spec
        requires self.inv(),
        ensures r.inv(), r@ == self@,
//@sub /self\.as_bytes\(\)\.to_vec\(\)/ => bytes_to_vec(self.as_bytes()) ## by its contract
//@end
//@fn src/string/secretbuf.rs :: impl Drop for SecretBuf :: drop
//@spec
        requires old(self).inv(), old(heap).clean(),
        ensures final(heap).clean(), final(heap).released.len() == old(heap).released.len() + 1,
//@sub /fn drop\(&mut self\)/ => pub fn drop(&mut self, Tracked(heap): Tracked<&mut Heap>) ## ghost heap
//@sub /unsafe \{ std::mem::ManuallyDrop::drop\(&mut self\.data\) \}/ => self.data.drop(Tracked(heap)); ## where it is dropped
//@post
        proof { assert forall|i: int| 0 <= i < heap.released.len() implies wiped(#[trigger] heap.released[i]) by { if i < heap.released.len() - 1 { assert(heap.released[i] == heap.released.drop_last()[i]); } } }
//@end
//@fn src/string/secretbuf.rs :: impl AsRef<[u8]> for SecretBuf :: as_ref
//@ret r
//@spec
        requires self.inv(),
        ensures r@ == self@,
//@end
// ---- Linked contracts ----
//@link sasl.rs :: impl SecretBuf :: inv SecretBuf
with_capacity is_empty
push_cstr = let tracked mut h = Heap { released: Seq::empty() }; self.push_cstr(s, Tracked(&mut h));
push_slice = let tracked mut h = Heap { released: Seq::empty() }; self.push_slice(s, Tracked(&mut h));
//@end
}
fn main() {}
}
