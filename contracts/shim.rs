// Trusted contracts on the dependencies (std::io, bit_vec, HashMap, Box<dyn Error>, slices).
// Every `external_body` here is an assumption about a dependency, never about code of /repo.
pub mod shim {
use vstd::prelude::*;
verus! {

pub mod io {
    use vstd::prelude::*;
    use crate::theory::*;

    #[derive(Clone, Copy, PartialEq, Eq)]
    pub enum ErrorKind { UnexpectedEof, WriteZero, Interrupted, InvalidData, InvalidInput, Other }
    unsafe impl vstd::prelude::Structural for ErrorKind {}

    /// the stream operations of this run of the program may fail; contracts hold either way, and a client that wants to
    /// show that something succeeds on streams that work (in memory, say) takes `!io_may_fail()` as its premise
    pub uninterp spec fn io_may_fail() -> bool;

    #[verifier::external_body]
    pub struct Error { k: ErrorKind }
    impl Error {
        pub uninterp spec fn spec_kind(&self) -> ErrorKind;
        /// the operation on the underlying stream failed (as opposed to a regular end of file)
        pub open spec fn is_fault(&self) -> bool { self.spec_kind() != ErrorKind::UnexpectedEof && io_may_fail() }
        /// a regular end of file
        pub open spec fn is_eof(&self) -> bool { self.spec_kind() == ErrorKind::UnexpectedEof }
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.spec_kind() { self.k }
    }

    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

    /// where a seek goes, for a stream of length n at position p
    pub open spec fn seek_target(s: SeekFrom, n: int, p: int) -> int {
        match s { SeekFrom::Start(x) => x as int, SeekFrom::End(x) => n + x, SeekFrom::Current(x) => p + x }
    }

    pub trait Seek: Sized {}

    pub trait Read: Sized {
        spec fn data(&self) -> Seq<u8>;
        spec fn pos(&self) -> int;
        /// some operation on this stream has failed
        spec fn failed(&self) -> bool;
        /// the same, when whoever lent it gets it back
        #[verifier::prophetic]
        spec fn end_failed(&self) -> bool;
        fn read_exact<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<(), Error>)
            ensures
                no_fault(r, old(self).failed(), final(self).failed()), final(self).end_failed() == old(self).end_failed(),
                final(self).data() == old(self).data(),
                final(self).data().len() <= MAX_LEN,
                match r {
                    Ok(()) => 0 <= old(self).pos() && old(self).pos() + N <= old(self).data().len()
                        && final(buf)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + N)
                        && final(self).pos() == old(self).pos() + N,
                    Err(e) => e.is_fault() || e.is_eof() && old(self).pos() + N > old(self).data().len(),
                };
    }

    pub trait Write: Sized {
        spec fn data(&self) -> Seq<u8>;
        spec fn pos(&self) -> int;
        spec fn failed(&self) -> bool;
        fn write_all<B: AsBytes + ?Sized>(&mut self, b: &B) -> (r: Result<(), Error>)
            ensures
                no_fault(r, old(self).failed(), final(self).failed()),
                match r {
                    Ok(()) => old(self).pos() >= 0
                        && final(self).data() == wr(old(self).data(), old(self).pos(), b.bytes())
                        && final(self).pos() == old(self).pos() + b.bytes().len(),
                    Err(e) => e.is_fault(),
                };
        fn flush(&mut self) -> (r: Result<(), Error>)
            ensures
                no_fault(r, old(self).failed(), final(self).failed()),
                match r {
                    Ok(()) => final(self).data() == old(self).data() && final(self).pos() == old(self).pos(),
                    Err(e) => e.is_fault(),
                };
    }

    #[verifier::reject_recursive_types(R)]
    pub struct BufReader<'a, R: Read> { pub inner: &'a mut R, pub d: Ghost<Seq<u8>>, pub p: Ghost<int> }
    impl<'a, R: Read> Read for BufReader<'a, R> {
        closed spec fn data(&self) -> Seq<u8> { self.d@ }
        closed spec fn pos(&self) -> int { self.p@ }
        open spec fn failed(&self) -> bool { (*self.inner).failed() }
        #[verifier::prophetic]
        open spec fn end_failed(&self) -> bool { (*final(self.inner)).failed() }
        #[verifier::external_body]
        fn read_exact<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<(), Error>) { unimplemented!() }
    }
    impl<'a, R: Read> BufReader<'a, R> {
        #[verifier::external_body]
        pub fn new(w: &'a mut R) -> (r: Self)
            ensures r.data() == old(w).data(), r.pos() == old(w).pos(), r.data().len() <= MAX_LEN, r.failed() == old(w).failed(), r.end_failed() == (*final(w)).failed()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn seek(&mut self, s: SeekFrom) -> (r: Result<u64, Error>)
            ensures
                no_fault(r, old(self).failed(), final(self).failed()), final(self).end_failed() == old(self).end_failed(),
                final(self).data() == old(self).data(),
                match r {
                    Ok(x) => x == seek_target(s, old(self).data().len() as int, old(self).pos()) && final(self).pos() == x,
                    Err(e) => e.is_fault() || seek_target(s, old(self).data().len() as int, old(self).pos()) < 0,
                }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn seek_relative(&mut self, x: i64) -> (r: Result<(), Error>)
            ensures
                no_fault(r, old(self).failed(), final(self).failed()), final(self).end_failed() == old(self).end_failed(),
                final(self).data() == old(self).data(),
                match r {
                    Ok(()) => final(self).pos() == old(self).pos() + x && final(self).pos() >= 0,
                    Err(e) => e.is_fault() || old(self).pos() + x < 0,
                }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn stream_position(&mut self) -> (r: Result<u64, Error>)
            ensures
                no_fault(r, old(self).failed(), final(self).failed()), final(self).end_failed() == old(self).end_failed(),
                final(self).data() == old(self).data(),
                match r {
                    Ok(x) => x == old(self).pos() && final(self).pos() == old(self).pos(),
                    Err(e) => e.is_fault(),
                }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn bytes(self) -> (r: Bytes<Self>)
            ensures r.data() == self.data(), r.pos() == self.pos(), r.failed() == self.failed(), r.end_failed() == self.end_failed()
        { unimplemented!() }
    }

    #[verifier::reject_recursive_types(R)]
    pub struct Bytes<R: Read> { pub inner: R }
    impl<R: Read> Bytes<R> {
        pub closed spec fn data(&self) -> Seq<u8> { self.inner.data() }
        pub closed spec fn pos(&self) -> int { self.inner.pos() }
        pub open spec fn failed(&self) -> bool { self.inner.failed() }
        #[verifier::prophetic]
        pub open spec fn end_failed(&self) -> bool { self.inner.end_failed() }
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<Result<u8, Error>>)
            ensures
                !(r matches Some(Err(_))) ==> final(self).failed() == old(self).failed(), final(self).end_failed() == old(self).end_failed(),
                final(self).data() == old(self).data(),
                final(self).data().len() <= MAX_LEN,
                match r {
                    Some(Ok(c)) => 0 <= old(self).pos() < old(self).data().len() && c == old(self).data()[old(self).pos()]
                        && final(self).pos() == old(self).pos() + 1,
                    Some(Err(e)) => e.is_fault(),
                    None => old(self).pos() >= old(self).data().len() && final(self).pos() == old(self).pos(),
                }
        { unimplemented!() }
    }

    /// `d`,`p` describe the stream with the buffered bytes applied; what `inner` holds is only known after a
    /// successful flush, seek or stream_position (these empty the buffer).
    #[verifier::reject_recursive_types(W)]
    pub struct BufWriter<'a, W: Write> { pub inner: &'a mut W, pub d: Ghost<Seq<u8>>, pub p: Ghost<int> }
    impl<'a, W: Write> BufWriter<'a, W> {
        pub closed spec fn data(&self) -> Seq<u8> { self.d@ }
        pub closed spec fn pos(&self) -> int { self.p@ }
        pub open spec fn failed(&self) -> bool { (*self.inner).failed() }
        pub open spec fn synced(&self) -> bool { (*self.inner).data() == self.data() && (*self.inner).pos() == self.pos() }
        #[verifier::external_body]
        pub fn new(w: &'a mut W) -> (r: Self)
            ensures r.inner == w, r.data() == old(w).data(), r.pos() == old(w).pos(), r.data().len() <= MAX_LEN,
        { unimplemented!() }
        /// strings shorter than the buffer (8192) are always taken completely; longer ones perhaps not
        #[verifier::external_body]
        pub fn write<B: AsBytes + ?Sized>(&mut self, b: &B) -> (r: Result<usize, Error>)
            ensures
                no_fault(r, old(self).failed(), final(self).failed()),
                *final(final(self).inner) == *final(old(self).inner),
                match r {
                    Ok(n) => final(self).data().len() <= MAX_LEN && final(self).pos() <= MAX_LEN && n <= b.bytes().len() && (b.bytes().len() < 8192 ==> n == b.bytes().len())
                        && old(self).pos() >= 0
                        && final(self).data() == wr(old(self).data(), old(self).pos(), b.bytes().take(n as int))
                        && final(self).pos() == old(self).pos() + n,
                    Err(e) => e.is_fault(),
                },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn write_all<B: AsBytes + ?Sized>(&mut self, b: &B) -> (r: Result<(), Error>)
            ensures
                no_fault(r, old(self).failed(), final(self).failed()),
                *final(final(self).inner) == *final(old(self).inner),
                match r {
                    Ok(()) => final(self).data().len() <= MAX_LEN && final(self).pos() <= MAX_LEN && old(self).pos() >= 0
                        && final(self).data() == wr(old(self).data(), old(self).pos(), b.bytes())
                        && final(self).pos() == old(self).pos() + b.bytes().len(),
                    Err(e) => e.is_fault(),
                },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn seek(&mut self, s: SeekFrom) -> (r: Result<u64, Error>)
            ensures
                no_fault(r, old(self).failed(), final(self).failed()),
                *final(final(self).inner) == *final(old(self).inner),
                match r {
                    Ok(x) => x <= MAX_LEN && x == seek_target(s, old(self).data().len() as int, old(self).pos())
                        && final(self).pos() == x && final(self).data() == old(self).data() && final(self).synced(),
                    Err(e) => e.is_fault() || seek_target(s, old(self).data().len() as int, old(self).pos()) < 0,
                },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn stream_position(&mut self) -> (r: Result<u64, Error>)
            ensures
                no_fault(r, old(self).failed(), final(self).failed()),
                *final(final(self).inner) == *final(old(self).inner),
                match r {
                    Ok(x) => x <= MAX_LEN && x == old(self).pos()
                        && final(self).pos() == x && final(self).data() == old(self).data() && final(self).synced(),
                    Err(e) => e.is_fault(),
                },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn flush(&mut self) -> (r: Result<(), Error>)
            ensures
                no_fault(r, old(self).failed(), final(self).failed()),
                *final(final(self).inner) == *final(old(self).inner),
                match r {
                    Ok(()) => final(self).data().len() <= MAX_LEN && final(self).pos() == old(self).pos() && final(self).data() == old(self).data()
                        && final(self).synced(),
                    Err(e) => e.is_fault(),
                },
        { unimplemented!() }
    }

    /// in-memory stream; a slice longer than MAX_LEN cannot exist (isize::MAX), reads and writes never fail
    pub struct Cursor<T> { pub inner: T, pub p: u64 }
    impl<T> Cursor<T> {
        pub fn new(inner: T) -> (r: Self) ensures r.inner == inner, r.p == 0 { Cursor { inner, p: 0 } }
        pub fn into_inner(self) -> (r: T) ensures r == self.inner { self.inner }
    }
    impl<T> Seek for Cursor<T> {}
    impl<'a> Read for Cursor<&'a [u8]> {
        open spec fn data(&self) -> Seq<u8> { self.inner@ }
        open spec fn pos(&self) -> int { self.p as int }
        uninterp spec fn failed(&self) -> bool;
        uninterp spec fn end_failed(&self) -> bool;
        #[verifier::external_body]
        fn read_exact<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<(), Error>) { unimplemented!() }
    }
    impl Read for Cursor<Vec<u8>> {
        open spec fn data(&self) -> Seq<u8> { self.inner@ }
        open spec fn pos(&self) -> int { self.p as int }
        uninterp spec fn failed(&self) -> bool;
        uninterp spec fn end_failed(&self) -> bool;
        #[verifier::external_body]
        fn read_exact<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<(), Error>) { unimplemented!() }
    }
    impl Write for Cursor<Vec<u8>> {
        open spec fn data(&self) -> Seq<u8> { self.inner@ }
        open spec fn pos(&self) -> int { self.p as int }
        uninterp spec fn failed(&self) -> bool;
        #[verifier::external_body]
        fn write_all<B: AsBytes + ?Sized>(&mut self, b: &B) -> (r: Result<(), Error>) { unimplemented!() }
        #[verifier::external_body]
        fn flush(&mut self) -> (r: Result<(), Error>) { unimplemented!() }
    }

    /// things that can be passed where a byte slice is wanted
    pub trait AsBytes {
        spec fn bytes(&self) -> Seq<u8>;
        fn slice(&self) -> (r: &[u8]) ensures r@ == self.bytes();
    }
    impl AsBytes for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } fn slice(&self) -> &[u8] { self } }
    impl AsBytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } fn slice(&self) -> &[u8] { self.as_slice() } }
    impl<const N: usize> AsBytes for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } fn slice(&self) -> &[u8] { self.as_slice() } }
    impl<B: AsBytes + ?Sized> AsBytes for &B { open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() } fn slice(&self) -> &[u8] { (**self).slice() } }
    pub fn sub<B: AsBytes + ?Sized>(b: &B, lo: usize, hi: usize) -> (r: &[u8])
        requires lo <= hi <= b.bytes().len()
        ensures r@ == b.bytes().subrange(lo as int, hi as int)
    { vstd::slice::slice_subrange(b.slice(), lo, hi) }
    pub fn sub_from<B: AsBytes + ?Sized>(b: &B, lo: usize) -> (r: &[u8])
        requires lo <= b.bytes().len()
        ensures r@ == b.bytes().subrange(lo as int, b.bytes().len() as int)
    { let s = b.slice(); vstd::slice::slice_subrange(s, lo, s.len()) }
    pub fn bytes_eq<A: AsBytes + ?Sized, B: AsBytes + ?Sized>(a: &A, b: &B) -> (r: bool)
        ensures r == (a.bytes() == b.bytes())
    {
        let (x, y) = (a.slice(), b.slice());
        if x.len() != y.len() { return false; }
        let mut i = 0;
        while i < x.len()
            invariant x@ == a.bytes(), y@ == b.bytes(), x@.len() == y@.len(), i <= x@.len(), forall|k: int| 0 <= k < i ==> x@[k] == y@[k]
            decreases x.len() - i
        {
            if x[i] != y[i] { return false; }
            i += 1;
        }
        assert(x@ =~= y@);
        true
    }
    pub fn copy_into<const N: usize, B: AsBytes + ?Sized>(a: &mut [u8; N], lo: usize, hi: usize, b: &B)
        requires lo <= hi <= N, b.bytes().len() == hi - lo
        ensures final(a)@ == old(a)@.subrange(0, lo as int) + b.bytes() + old(a)@.subrange(hi as int, N as int)
    {
        let s = b.slice();
        let ghost o = a@;
        let mut i = lo;
        while i < hi
            invariant lo <= i <= hi <= N, s@ == b.bytes(), s@.len() == hi - lo, a@.len() == N, o.len() == N,
                forall|k: int| 0 <= k < N ==> a@[k] == (if lo <= k < i { s@[k - lo] } else { o[k] })
            decreases hi - i
        { a[i] = s[i - lo]; i += 1; }
        assert(a@ =~= o.subrange(0, lo as int) + s@ + o.subrange(hi as int, N as int));
    }
}

pub mod bit_vec {
    use vstd::prelude::*;
    use crate::theory::*;
    use super::io::AsBytes;
    proof fn lemma_msb(b: u8)
        ensures msb_bit(b, 0) == (b / 128 % 2 == 1), msb_bit(b, 1) == (b / 64 % 2 == 1), msb_bit(b, 2) == (b / 32 % 2 == 1), msb_bit(b, 3) == (b / 16 % 2 == 1),
            msb_bit(b, 4) == (b / 8 % 2 == 1), msb_bit(b, 5) == (b / 4 % 2 == 1), msb_bit(b, 6) == (b / 2 % 2 == 1), msb_bit(b, 7) == (b % 2 == 1)
    { assert(pow2(0) == 1 && pow2(1) == 2 && pow2(2) == 4 && pow2(3) == 8 && pow2(4) == 16 && pow2(5) == 32 && pow2(6) == 64 && pow2(7) == 128) by(compute_only); assert(b as int / 1 == b); }
    pub struct BitVec { b: Vec<bool> }
    impl View for BitVec { type V = Seq<bool>; closed spec fn view(&self) -> Seq<bool> { self.b@ } }
    impl BitVec {
        pub fn new() -> (r: Self) ensures r@ == Seq::<bool>::empty() { BitVec { b: Vec::new() } }
        pub fn push(&mut self, x: bool) ensures final(self)@ == old(self)@.push(x) { self.b.push(x); }
        pub fn get(&self, i: usize) -> (r: Option<bool>)
            ensures r == (if i < self@.len() { Some(self@[i as int]) } else { None::<bool> })
        { if i < self.b.len() { Some(self.b[i]) } else { None } }
        pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.b.len() }
        pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.b.len() == 0 }
        fn bit(&self, i: usize) -> (r: u8) ensures r == bit_at(self@, i as int), r <= 1 { if i < self.b.len() { if self.b[i] { 1 } else { 0 } } else { 0 } }
        pub fn to_bytes(&self) -> (r: Vec<u8>) ensures r@ == pack_msb(self@)
        {
            let mut v: Vec<u8> = Vec::new();
            let n = self.b.len();
            let m = n / 8 + if n % 8 == 0 { 0 } else { 1 };
            let mut i: usize = 0;
            while i < m
                invariant n == self.b@.len(), m == (n + 7) / 8, i <= m, v@.len() == i, forall|k: int| 0 <= k < i ==> v@[k] == byte_msb(self@, 8 * k)
                decreases m - i
            {
                let p = 8 * i;
                assert(p < n);
                let mut x: u8 = 0;
                let mut k: usize = 0;
                // the last byte may lie at the end of the address range
                x = 128 * self.bit(p);
                if n - p > 1 { x = x + 64 * self.bit(p + 1); }
                if n - p > 2 { x = x + 32 * self.bit(p + 2); }
                if n - p > 3 { x = x + 16 * self.bit(p + 3); }
                if n - p > 4 { x = x + 8 * self.bit(p + 4); }
                if n - p > 5 { x = x + 4 * self.bit(p + 5); }
                if n - p > 6 { x = x + 2 * self.bit(p + 6); }
                if n - p > 7 { x = x + self.bit(p + 7); }
                v.push(x);
                i += 1;
            }
            assert(v@ =~= pack_msb(self@));
            v
        }
        pub fn from_bytes<B: AsBytes + ?Sized>(b: &B) -> (r: Self) ensures r@ == unpack_msb(b.bytes())
        {
            let s = b.slice();
            let mut v: Vec<bool> = Vec::new();
            let mut i: usize = 0;
            while i < s.len()
                invariant s@ == b.bytes(), i <= s@.len(), v@.len() == 8 * i, forall|k: int| 0 <= k < 8 * i ==> v@[k] == msb_bit(s@[k / 8], k % 8)
                decreases s.len() - i
            {
                let x = s[i];
                let ghost w0 = v@;
                v.push(x / 128 % 2 == 1);
                v.push(x / 64 % 2 == 1);
                v.push(x / 32 % 2 == 1);
                v.push(x / 16 % 2 == 1);
                v.push(x / 8 % 2 == 1);
                v.push(x / 4 % 2 == 1);
                v.push(x / 2 % 2 == 1);
                v.push(x % 2 == 1);
                let ghost w = v@;
                assert forall|k: int| 0 <= k < 8 * (i + 1) implies v@[k] == msb_bit(s@[k / 8], k % 8) by {
                    if k >= 8 * i { assert(k / 8 == i as int); let j = k - 8 * i; assert(k % 8 == j);
                        lemma_msb(x);
                        assert(v@[k] == w[8 * i + j]);
                        if j == 0 { assert(v@[8 * i] == (x / 128 % 2 == 1)); } else if j == 1 { assert(v@[8 * i + 1] == (x / 64 % 2 == 1)); } else if j == 2 { assert(v@[8 * i + 2] == (x / 32 % 2 == 1)); }
                        else if j == 3 { assert(v@[8 * i + 3] == (x / 16 % 2 == 1)); } else if j == 4 { assert(v@[8 * i + 4] == (x / 8 % 2 == 1)); } else if j == 5 { assert(v@[8 * i + 5] == (x / 4 % 2 == 1)); }
                        else if j == 6 { assert(v@[8 * i + 6] == (x / 2 % 2 == 1)); } else { assert(v@[8 * i + 7] == (x % 2 == 1)); } }
                    else { assert(v@[k] == w0[k]); }
                }
                i += 1;
            }
            assert(v@ =~= unpack_msb(b.bytes()));
            BitVec { b: v }
        }
        pub fn append(&mut self, o: &mut BitVec) ensures final(self)@ == old(self)@ + old(o)@, final(o)@ == Seq::<bool>::empty()
        { self.b.append(&mut o.b); }
        pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ })
        { self.b.truncate(n); }
        pub fn clear_all(&mut self) ensures final(self)@.len() == old(self)@.len()
        { let n = self.b.len(); self.b = super::vec_fill(false, n); }
    }
    impl Clone for BitVec {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
}

pub mod collections {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(V)]
    pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
    impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
    impl<K, V> HashMap<K, V> {
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
        #[verifier::external_body]
        pub fn get(&self, k: &K) -> (r: Option<&V>)
            ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) }
        { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    }
}

/// what the command line tool uses: files, standard input, clap
pub mod cli {
    use vstd::prelude::*;
    use crate::theory::*;
    use super::{DynErr, IntoDyn};
    use super::io;

    /// the file system and standard input. `open`: the file that is open for writing (at most one at a time); its entry in
    /// `files` is the old one until it is closed. Path names stand for files one to one (links to one file are searched only).
    pub struct World { pub files: Ghost<Map<Seq<char>, Seq<u8>>>, pub lines: Ghost<Seq<Seq<char>>>, pub open: Ghost<Option<Seq<char>>> }

    /// the command line, as clap takes it apart
    pub uninterp spec fn cli_command() -> Option<Seq<char>>;
    pub uninterp spec fn cli_arg(name: Seq<char>) -> Seq<char>;
    /// a line without white space at its end
    pub uninterp spec fn trimmed_end(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
    pub open spec fn first_line(w: World) -> Seq<char> { if w.lines@.len() > 0 { w.lines@[0] } else { Seq::empty() } }

    pub struct FmtError;
    impl IntoDyn for FmtError {
        open spec fn dynamic(self) -> DynErr { DynErr::Other }
        fn into_dyn(self) -> (r: DynErr) { DynErr::Other }
    }
    pub trait VxExpect<T>: Sized {
        spec fn expected(self, r: T) -> bool;
        spec fn may_expect(self) -> bool;
        fn vx_expect(self) -> (r: T) requires self.may_expect() ensures self.expected(r);
    }
    impl<T> VxExpect<T> for Option<T> {
        open spec fn expected(self, r: T) -> bool { self == Some(r) }
        open spec fn may_expect(self) -> bool { self is Some }
        fn vx_expect(self) -> (r: T) { self.unwrap() }
    }
    /// ends the program when the operation has failed
    impl<T> VxExpect<T> for Result<T, io::Error> {
        open spec fn expected(self, r: T) -> bool { self == Ok::<T, io::Error>(r) }
        open spec fn may_expect(self) -> bool { true }
        #[verifier::external_body]
        fn vx_expect(self) -> (r: T) { unimplemented!() }
    }

    pub trait Text { spec fn text(&self) -> Seq<char>; }
    impl Text for str { open spec fn text(&self) -> Seq<char> { self@ } }
    impl Text for String { open spec fn text(&self) -> Seq<char> { self@ } }
    impl<T: Text + ?Sized> Text for &T { open spec fn text(&self) -> Seq<char> { (**self).text() } }
    #[verifier::external_body]
    pub fn string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn trim_end<S: Text + ?Sized>(s: &S) -> (r: &str) ensures r@ == trimmed_end(s.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn trim<S: Text + ?Sized>(s: &S) -> (r: &str) ensures r@ == trimmed(s.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str<S: Text + ?Sized>(s: &S) -> (r: &str) ensures r@ == s.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

    pub struct Stdin {}
    #[verifier::external_body]
    pub fn stdin() -> Stdin { unimplemented!() }
    impl Stdin {
        #[verifier::external_body]
        pub fn read_line(&self, w: &mut World, buf: &mut String) -> (r: Result<usize, io::Error>)
            ensures
                final(w).files == old(w).files, final(w).open == old(w).open,
                r is Ok ==> final(buf)@ == old(buf)@ + first_line(*old(w)) && final(w).lines@ == (if old(w).lines@.len() > 0 { old(w).lines@.skip(1) } else { old(w).lines@ }),
        { unimplemented!() }
    }

    pub struct Path<'a> { pub p: &'a str }
    impl<'a> Path<'a> {
        pub fn new(p: &'a str) -> (r: Self) ensures r.p == p { Path { p } }
        /// false also when the file's metadata cannot be had; then it cannot be opened either
        #[verifier::external_body]
        pub fn exists(&self, w: &World) -> (r: bool) ensures r == w.files@.contains_key(self.p@) { unimplemented!() }
    }

    #[verifier::external_body]
    pub fn fs_read(w: &World, p: &str) -> (r: Result<Vec<u8>, io::Error>)
        ensures r matches Ok(v) ==> w.files@.contains_key(p@) && v@ == w.files@[p@]
    { unimplemented!() }

    pub struct File { pub d: Ghost<Seq<u8>>, pub p: Ghost<int> }
    impl File {
        /// for reading; a failure does not mean that there is no such file
        #[verifier::external_body]
        pub fn open(w: &World, p: &str) -> (r: Result<File, io::Error>)
            ensures r matches Ok(f) ==> w.files@.contains_key(p@) && io::Write::data(&f) == w.files@[p@] && io::Write::pos(&f) == 0
        { unimplemented!() }
        #[verifier::external_body]
        pub fn set_len(&mut self, n: u64) -> (r: Result<(), io::Error>)
            ensures r is Ok ==> io::Write::data(final(self)) == (if n <= io::Write::data(old(self)).len() { io::Write::data(old(self)).take(n as int) }
                else { io::Write::data(old(self)) + Seq::new((n - io::Write::data(old(self)).len()) as nat, |i: int| 0u8) })
        { unimplemented!() }
    }
    impl io::Seek for File {}
    impl io::Write for File {
        open spec fn data(&self) -> Seq<u8> { self.d@ }
        open spec fn pos(&self) -> int { self.p@ }
        uninterp spec fn failed(&self) -> bool;
        #[verifier::external_body]
        fn write_all<B: io::AsBytes + ?Sized>(&mut self, b: &B) -> (r: Result<(), io::Error>) { unimplemented!() }
        #[verifier::external_body]
        fn flush(&mut self) -> (r: Result<(), io::Error>) { unimplemented!() }
    }

    pub struct OpenOptions { pub w: bool, pub r: bool, pub t: bool, pub c: bool, pub n: bool }
    impl OpenOptions {
        pub fn new() -> (r: Self) ensures r == (OpenOptions { w: false, r: false, t: false, c: false, n: false }) { OpenOptions { w: false, r: false, t: false, c: false, n: false } }
        pub fn write(self, x: bool) -> (r: Self) ensures r == (OpenOptions { w: x, ..self }) { OpenOptions { w: x, ..self } }
        pub fn read(self, x: bool) -> (r: Self) ensures r == (OpenOptions { r: x, ..self }) { OpenOptions { r: x, ..self } }
        pub fn truncate(self, x: bool) -> (r: Self) ensures r == (OpenOptions { t: x, ..self }) { OpenOptions { t: x, ..self } }
        pub fn create(self, x: bool) -> (r: Self) ensures r == (OpenOptions { c: x, ..self }) { OpenOptions { c: x, ..self } }
        pub fn create_new(self, x: bool) -> (r: Self) ensures r == (OpenOptions { n: x, ..self }) { OpenOptions { n: x, ..self } }
        #[verifier::external_body]
        pub fn open(self, w: &mut World, p: &str) -> (r: Result<File, io::Error>)
            requires old(w).open@ is None
            ensures
                final(w).files == old(w).files, final(w).lines == old(w).lines,
                r is Err ==> final(w).open == old(w).open,
                r matches Ok(f) ==> {
                    let had = old(w).files@.contains_key(p@);
                    &&& final(w).open@ == Some(p@)
                    &&& self.n ==> !had
                    &&& !self.c && !self.n ==> had
                    &&& io::Write::data(&f) == (if had && !self.t { old(w).files@[p@] } else { Seq::empty() }) && io::Write::pos(&f) == 0
                },
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn file_create(w: &mut World, p: &str) -> (r: Result<File, io::Error>)
        requires old(w).open@ is None
        ensures
            final(w).files == old(w).files, final(w).lines == old(w).lines,
            r is Err ==> final(w).open == old(w).open,
            r matches Ok(f) ==> final(w).open@ == Some(p@) && io::Write::data(&f) == Seq::<u8>::empty() && io::Write::pos(&f) == 0,
    { unimplemented!() }
    /// the end of the scope of an open file
    #[verifier::external_body]
    pub fn close(w: &mut World, f: File)
        requires old(w).open@ is Some
        ensures final(w).files@ == old(w).files@.insert(old(w).open@->0, io::Write::data(&f)), final(w).open@ is None, final(w).lines == old(w).lines
    { unimplemented!() }

    pub struct Arg {}
    impl Arg {
        pub fn new() -> Self { Arg {} }
        pub fn value_parser<T>(self, t: T) -> Self { self }
        pub fn required(self, x: bool) -> Self { self }
    }
    pub struct Command {}
    impl Command {
        pub fn new(n: &str) -> Self { Command {} }
        pub fn about(self, s: &str) -> Self { self }
        pub fn after_long_help(self, s: &str) -> Self { self }
        pub fn version(self, s: &str) -> Self { self }
        pub fn subcommand(self, c: Command) -> Self { self }
        pub fn arg(self, a: Arg) -> Self { self }
        #[verifier::external_body]
        pub fn get_matches(self) -> (r: ArgMatches) ensures r.top() { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct ArgMatches { x: u8 }
    impl ArgMatches {
        pub uninterp spec fn top(&self) -> bool;
        #[verifier::external_body]
        pub fn subcommand_matches(&self, n: &str) -> (r: Option<&ArgMatches>)
            ensures self.top() ==> (r is Some <==> cli_command() == Some(n@)), r is Some ==> !r->0.top()
        { unimplemented!() }
        /// every argument is there: clap insists on the required ones (-m, -i, -o), whatever `arg!` says is trusted
        #[verifier::external_body]
        pub fn get_one<T>(&self, n: &str) -> (r: Option<&str>)
            ensures !self.top() ==> (r matches Some(s) && s@ == cli_arg(n@))
        { unimplemented!() }
    }
}

pub trait PrimInt: Copy {}
impl PrimInt for u8 {}

/// stands for `Box<dyn std::error::Error>`
pub enum DynErr { Lib(crate::Error), Io(io::Error), Pool(crate::tools::node_pool::Error), Other }
pub trait IntoDyn: Sized {
    spec fn dynamic(self) -> DynErr;
    fn into_dyn(self) -> (r: DynErr) ensures r == self.dynamic();
}
impl IntoDyn for crate::Error {
    open spec fn dynamic(self) -> DynErr { DynErr::Lib(self) }
    fn into_dyn(self) -> (r: DynErr) { DynErr::Lib(self) }
}
impl IntoDyn for io::Error {
    open spec fn dynamic(self) -> DynErr { DynErr::Io(self) }
    fn into_dyn(self) -> (r: DynErr) { DynErr::Io(self) }
}
impl IntoDyn for crate::tools::node_pool::Error {
    open spec fn dynamic(self) -> DynErr { DynErr::Pool(self) }
    fn into_dyn(self) -> (r: DynErr) { DynErr::Pool(self) }
}
impl IntoDyn for DynErr {
    open spec fn dynamic(self) -> DynErr { self }
    fn into_dyn(self) -> (r: DynErr) { self }
}
pub struct Box {}
impl Box {
    pub fn new<E: IntoDyn>(e: E) -> (r: DynErr) ensures r == e.dynamic() { e.into_dyn() }
}

pub fn vec_fill<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@ == Seq::new(n as nat, |i: int| x)
{
    let mut v = Vec::new();
    let mut i = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|k: int| 0 <= k < i ==> v@[k] == x
        decreases n - i
    { v.push(x); i += 1; }
    assert(v@ =~= Seq::new(n as nat, |i: int| x));
    v
}

pub fn arr2<T: Copy>(a: [T; 2]) -> (r: (T, T)) ensures r.0 == a@[0], r.1 == a@[1] { (a[0], a[1]) }

#[verifier::external_body]
pub fn vx_panic<A>() -> A requires false { unimplemented!() }

/// `assert!`: must hold
pub fn vx_assert(b: bool) requires b {}

pub fn rem_euclid_i64(a: i64, b: i64) -> (r: i64)
    requires b > 0
    ensures r == a as int % b as int
{
    if a >= 0 { (a as u64 % b as u64) as i64 } else {
        // -a-1 >= 0 : a % b == b - 1 - ((-a-1) % b)
        let m = -(a + 1);
        let q = (m as u64 % b as u64) as i64;
        proof { 
            let d = m as int / b as int;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m as int, b as int);
            assert(a as int == (-d - 1) * b + (b - 1 - q)) by(nonlinear_arith) requires m as int == b as int * d + q as int, m as int == -(a as int) - 1;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a as int, b as int, -d - 1, b - 1 - q);
        }
        b - 1 - q
    }
}

proof fn lemma_le4(x: nat)
    ensures crate::theory::le_bytes(x, 4) =~= seq![(x % 256) as u8, (x / 256 % 256) as u8, (x / 256 / 256 % 256) as u8, (x / 256 / 256 / 256 % 256) as u8],
        crate::theory::le_bytes(x, 2) =~= seq![(x % 256) as u8, (x / 256 % 256) as u8]
{ reveal_with_fuel(crate::theory::le_bytes, 5); }
proof fn lemma_lev(b: Seq<u8>)
    ensures b.len() == 4 ==> crate::theory::le_value(b) == b[0] + 256 * (b[1] + 256 * (b[2] + 256 * b[3])), b.len() == 2 ==> crate::theory::le_value(b) == b[0] + 256 * b[1]
{
    reveal_with_fuel(crate::theory::le_value, 5);
    if b.len() == 4 {
        assert(b.skip(1).skip(1) =~= b.skip(2));
        assert(b.skip(2).skip(1) =~= b.skip(3));
        assert(b.skip(3).skip(1) =~= b.skip(4));
    } else if b.len() == 2 { assert(b.skip(1).skip(1) =~= b.skip(2)); }
}
pub fn u32_to_le_bytes(x: u32) -> (r: [u8; 4]) ensures r@ == crate::theory::le_bytes(x as nat, 4) {
    proof { lemma_le4(x as nat); }
    [(x % 256) as u8, (x / 256 % 256) as u8, (x / 256 / 256 % 256) as u8, (x / 256 / 256 / 256 % 256) as u8]
}
pub fn u16_to_le_bytes(x: u16) -> (r: [u8; 2]) ensures r@ == crate::theory::le_bytes(x as nat, 2) {
    proof { lemma_le4(x as nat); }
    [(x % 256) as u8, (x / 256 % 256) as u8]
}
pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r as nat == crate::theory::le_value(b@) {
    proof { lemma_lev(b@); }
    b[0] as u32 + 256 * (b[1] as u32 + 256 * (b[2] as u32 + 256 * (b[3] as u32)))
}
pub fn u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r as nat == crate::theory::le_value(b@) {
    proof { lemma_lev(b@); }
    b[0] as u16 + 256 * (b[1] as u16)
}

// functions of std that the verified source does not use, for changed source that does
pub assume_specification[usize::abs_diff](a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { b - a } else { a - b });
pub assume_specification<T: Default>[core::mem::take](a: &mut T) -> (r: T) ensures r == *old(a), T::default.ensures((), *final(a));
pub assume_specification<T>[<[T]>::swap](a: &mut [T], i: usize, j: usize)
    requires i < old(a)@.len(), j < old(a)@.len()
    ensures final(a)@ == old(a)@.update(i as int, old(a)@[j as int]).update(j as int, old(a)@[i as int]);
pub assume_specification<T: Clone>[<[T]>::to_vec](a: &[T]) -> (r: Vec<T>)
    ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> cloned(a@[i], #[trigger] r@[i]);
pub assume_specification<T: Clone>[<[T]>::fill](a: &mut [T], v: T)
    ensures final(a)@.len() == old(a)@.len(), forall|i: int| 0 <= i < final(a)@.len() ==> cloned(v, #[trigger] final(a)@[i]);
pub assume_specification<T>[<[T]>::reverse](a: &mut [T]) ensures final(a)@ == old(a)@.reverse();

pub const USIZE_BITS: u32 = 64;

/// `v.iter().rev().map(|x| *x).collect()`
pub fn rev_collect(v: &Vec<u8>) -> (r: Vec<u8>)
    ensures r@ == v@.reverse()
{
    let mut r = Vec::new();
    let mut i = v.len();
    while i > 0
        invariant i <= v@.len(), r@.len() == v@.len() - i, forall|k: int| 0 <= k < r@.len() ==> r@[k] == v@[v@.len() - 1 - k]
        decreases i
    { i -= 1; r.push(v[i]); }
    assert(r@ =~= v@.reverse());
    r
}

} // verus!
}
