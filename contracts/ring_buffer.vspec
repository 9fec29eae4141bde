## the sliding window
@module tools::ring_buffer
impl<T: PrimInt> RingBuffer<T> {
    pub closed spec fn at(&self) -> Seq<T> { self.buf@ }
    pub closed spec fn cur(&self) -> int { self.pos as int }
    pub closed spec fn inv(&self) -> bool { self.n == self.buf@.len() && self.pos < self.n && self.n <= 4096 }
}
pub proof fn lemma_ring_len<T: PrimInt>(r: RingBuffer<T>)
    requires r.inv()
    ensures 0 <= r.cur() < r.at().len() <= 4096
{}
@fn tools::ring_buffer::RingBuffer::create
@ret r
@contract
    requires 1 <= n <= 4096,
    ensures r.inv(), r.at() == Seq::new(n as nat, |i: int| fill), r.cur() == 0,
@fn tools::ring_buffer::RingBuffer::get_pos
@ret r
@contract
    requires self.inv(), -0x1000_0000 <= offset <= 0x1000_0000,
    ensures r == (self.cur() + offset) % (self.at().len() as int), r < self.at().len(),
@fn tools::ring_buffer::RingBuffer::set_pos
@contract
    requires old(self).inv(),
    ensures final(self).inv(), final(self).at() == old(self).at(), final(self).cur() == pos as int % old(self).at().len() as int,
@fn tools::ring_buffer::RingBuffer::get_abs
@ret r
@contract
    requires self.inv(),
    ensures r == self.at()[abs as int % self.at().len() as int],
@fn tools::ring_buffer::RingBuffer::set_abs
@contract
    requires old(self).inv(),
    ensures final(self).inv(), final(self).at() == old(self).at().update(abs as int % old(self).at().len() as int, val), final(self).cur() == old(self).cur(),
@fn tools::ring_buffer::RingBuffer::get
@ret r
@contract
    requires self.inv(), -0x1000_0000 <= offset <= 0x1000_0000,
    ensures r == self.at()[(self.cur() + offset) % self.at().len() as int],
@fn tools::ring_buffer::RingBuffer::set
@contract
    requires old(self).inv(), -0x1000_0000 <= offset <= 0x1000_0000,
    ensures final(self).inv(), final(self).at() == old(self).at().update((old(self).cur() + offset) % old(self).at().len() as int, val), final(self).cur() == old(self).cur(),
@fn tools::ring_buffer::RingBuffer::advance
@contract
    requires old(self).inv(),
    ensures final(self).inv(), final(self).at() == old(self).at(), final(self).cur() == (old(self).cur() + 1) % old(self).at().len() as int,
@fn tools::ring_buffer::RingBuffer::retreat
@contract
    requires old(self).inv(), old(self).cur() >= 1,
    ensures final(self).inv(), final(self).at() == old(self).at(), final(self).cur() == old(self).cur() - 1,
@at start
    proof { lemma_ring_mod(self.pos - 1, self.n as int, 0); }
@fn tools::ring_buffer::RingBuffer::distance_behind
@ret r
@contract
    requires self.inv(), other <= 0x1000_0000,
    ensures r == (self.cur() - other) % self.at().len() as int, r < self.at().len(),
@end
