//@props P16
//@title reading from byte values and shared bytes through std::io, and writing to a builder
//@assume the caller's buffers are slices and lists of slices; a `Vec` appends what it is given
use vstd::prelude::*;

verus! {

//@uses bytedata.rs

//@include io.rs

//@fn std.rs read_until_inner
//@ret r
//@sub $b . extend_from_slice ( & dd [ $(q) ] ) => v_append($b, v_cut(dd, $(q)))
//@sub $b . extend_from_slice ( dd ) => v_append($b, dd)
//@spec
    ensures up_to(dd@, byte, r as int), final(buf)@ =~= old(buf)@ + dd@.take(r as int)
//@loop 0 while
    invariant len == dd@.len(), i <= len, buf@ == old(buf)@, forall|j: int| #![trigger dd@[j]] 0 <= j < i ==> dd@[j] != byte
    decreases len - i
//@end

//@fn std.rs read_vectored_inner
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@sig * const u8 => Src<'_>
//@sig & mut [ IoSliceMut<'_> ] => &mut Bufs
//@sub for $x in bufs => for $x in bufs.v_iter()
//@iter 0 it
//@sub buf . is_empty ( ) => (bufs.v_len(buf) == 0)
//@sub buf . len ( ) => bufs.v_len(buf)
//@sub core::ptr::copy_nonoverlapping ( $(s) , buf . as_mut_ptr ( ) , $(n) ) => bufs.v_write(buf, 0, $(s), $(n))
//@spec
    requires slic.o == 0, slic.s@.len() == len
    ensures spread(old(bufs)@, final(bufs)@, slic.s@, r as int)
//@at loop 0 before
    proof {
        assert(bufs@.take(0) =~= Seq::<Seq<u8>>::empty());
        assert(glued(bufs@.take(0)) =~= Seq::<u8>::empty());
    }
    let ghost whole = slic.s@;
//@loop 0 for
    invariant
        it.at <= it.n, it.n == bufs@.len(), slic.s@ == whole, slic.o + left == len, partly(old(bufs)@, bufs@, whole, it.at as int, slic.o as int),
    ensures slic.s@ == whole, slic.o + left == len, partly(old(bufs)@, bufs@, whole, it.at as int, slic.o as int), left == 0 || it.at == bufs@.len()
    decreases it.n - it.at
//@at loop 0 start
    let ghost bs = bufs@;
    let ghost so = slic.o as int;
    proof {
        if left == 0 || bs[buf as int].len() == 0 {
            assert(bs[buf as int] == old(bufs)@[buf as int]);
            assert(over(whole.subrange(so, so), old(bufs)@[buf as int]) =~= bs[buf as int]);
            assert(bs =~= bs.update(buf as int, over(whole.subrange(so, so), old(bufs)@[buf as int])));
            one_more(old(bufs)@, bs, bs, whole, buf as int, so, 0);
        }
    }
//@at loop 0 end
    proof {
        assert(bufs@[buf as int] =~= over(whole.subrange(so, slic.o as int), old(bufs)@[buf as int]));
        one_more(old(bufs)@, bs, bufs@, whole, buf as int, so, slic.o - so);
    }
//@at loop 0 after
    proof { all_seen(old(bufs)@, bufs@, whole, it.at as int, slic.o as int); }
//@end


impl<'a> ByteData<'a> {
//@fn std.rs <ByteData as Read>::read
//@ret r
//@sig std::io::Result => IoResult
//@opt & self . as_slice ( ) [ $(q) ] => v_cut(self.as_slice().v_raw_of(), $(q))
//@opt & self [ $(q) ] => v_cut(self.as_slice().v_raw_of(), $(q))
//@opt $b [ $(q) ] . copy_from_slice ( $(x) ) => v_place($b, $(q), $(x))
//@opt self . as_slice ( ) => self.as_slice().v_raw_of()
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(buf)@.len() == old(buf)@.len(),
        match r {
            Ok(n) => n == least(old(self)@.len() as int, old(buf)@.len() as int) && moved(old(self)@, final(self)@, n as int) && final(buf)@ =~= over(old(self)@.take(n as int), old(buf)@),
            Err(_) => false,
        }
//@end
//@fn std.rs <ByteData as Read>::read_vectored
//@ret r
//@sig std::io::Result => IoResult
//@sig & mut [ IoSliceMut<'_> ] => &mut Bufs
//@opt & self . as_slice ( ) [ $(q) ] => v_cut(self.as_slice().v_raw_of(), $(q))
//@opt & self [ $(q) ] => v_cut(self.as_slice().v_raw_of(), $(q))
//@opt $b [ $(q) ] . copy_from_slice ( $(x) ) => v_place($b, $(q), $(x))
//@opt self . as_slice ( ) => self.as_slice().v_raw_of()
//@sub $x . as_ptr ( ) => Src::v_of($x)
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        match r {
            Ok(n) => spread(old(bufs)@, final(bufs)@, old(self)@, n as int) && moved(old(self)@, final(self)@, n as int),
            Err(_) => false,
        }
//@at start
    proof { if self@.len() == 0 { assert(spread(bufs@, bufs@, self@, 0)); } }
//@end
//@fn std.rs <ByteData as Read>::read_to_end
//@ret r
//@sig std::io::Result => IoResult
//@opt $b . extend_from_slice ( self . as_slice ( ) ) => v_append($b, self.as_slice().v_raw_of())
//@opt $b . extend_from_slice ( $(x) ) => v_append($b, $(x))
//@opt self . as_slice ( ) => self.as_slice().v_raw_of()
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self)@.len() == 0, final(buf)@ =~= old(buf)@ + old(self)@, r matches Ok(n) && n == old(self)@.len()
//@end
//@fn std.rs <ByteData as BufRead>::fill_buf
//@ret r
//@sig std::io::Result<& [ u8 ]> => IoResult<&[u8]>
//@opt self . as_slice ( ) => self.as_slice().v_raw_of()
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self)@ =~= old(self)@, r matches Ok(x) && x@ =~= old(self)@
//@end
//@fn std.rs <ByteData as BufRead>::consume
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), amt <= old(self)@.len(), moved(old(self)@, final(self)@, amt as int)
//@end
//@fn std.rs <ByteData as BufRead>::read_until
//@ret r
//@sig std::io::Result => IoResult
//@opt self . as_slice ( ) => self.as_slice().v_raw_of()
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        match r {
            Ok(n) => up_to(old(self)@, byte, n as int) && moved(old(self)@, final(self)@, n as int) && final(buf)@ =~= old(buf)@ + old(self)@.take(n as int),
            Err(_) => false,
        }
//@end
}

impl SharedBytes {
//@fn std.rs <SharedBytes as Read>::read
//@ret r
//@sig std::io::Result => IoResult
//@opt & self . as_slice ( ) [ $(q) ] => v_cut(self.as_slice(), $(q))
//@opt & self [ $(q) ] => v_cut(self.as_slice(), $(q))
//@opt $b [ $(q) ] . copy_from_slice ( $(x) ) => v_place($b, $(q), $(x))
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(buf)@.len() == old(buf)@.len(),
        match r {
            Ok(n) => n == least(old(self)@.len() as int, old(buf)@.len() as int) && moved(old(self)@, final(self)@, n as int) && final(buf)@ =~= over(old(self)@.take(n as int), old(buf)@),
            Err(_) => false,
        }
//@end
//@fn std.rs <SharedBytes as Read>::read_vectored
//@ret r
//@sig std::io::Result => IoResult
//@sig & mut [ IoSliceMut<'_> ] => &mut Bufs
//@opt & self . as_slice ( ) [ $(q) ] => v_cut(self.as_slice(), $(q))
//@opt & self [ $(q) ] => v_cut(self.as_slice(), $(q))
//@opt $b [ $(q) ] . copy_from_slice ( $(x) ) => v_place($b, $(q), $(x))
//@sub $x . as_ptr ( ) => Src::v_of($x)
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        match r {
            Ok(n) => spread(old(bufs)@, final(bufs)@, old(self)@, n as int) && moved(old(self)@, final(self)@, n as int),
            Err(_) => false,
        }
//@at start
    proof { if self@.len() == 0 { assert(spread(bufs@, bufs@, self@, 0)); } }
//@end
//@fn std.rs <SharedBytes as Read>::read_to_end
//@ret r
//@sig std::io::Result => IoResult
//@opt $b . extend_from_slice ( $(x) ) => v_append($b, $(x))
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self)@.len() == 0, final(buf)@ =~= old(buf)@ + old(self)@, r matches Ok(n) && n == old(self)@.len()
//@end
//@fn std.rs <SharedBytes as BufRead>::fill_buf
//@ret r
//@sig std::io::Result<& [ u8 ]> => IoResult<&[u8]>
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(), final(self)@ =~= old(self)@, r matches Ok(x) && x@ =~= old(self)@
//@end
//@fn std.rs <SharedBytes as BufRead>::consume
//@spec
    requires old(self).wf(), amt <= old(self)@.len()
    ensures
        final(self).wf(), amt <= old(self)@.len(), moved(old(self)@, final(self)@, amt as int)
//@end
//@fn std.rs <SharedBytes as BufRead>::read_until
//@ret r
//@sig std::io::Result => IoResult
//@spec
    requires old(self).wf()
    ensures
        final(self).wf(),
        match r {
            Ok(n) => up_to(old(self)@, byte, n as int) && moved(old(self)@, final(self)@, n as int) && final(buf)@ =~= old(buf)@ + old(self)@.take(n as int),
            Err(_) => false,
        }
//@end
}

// ---- writing to a builder ----

/// The room a closure is lent, seen by what writes into it.
impl Room {
    #[verifier::external_body]
    fn v_fill(&mut self, at: usize, src: &[u8], n: usize)
        requires old(self).wf(), at + n <= old(self).n, n <= src@.len()
        ensures
            final(self).wf(), final(self).n == old(self).n,
            final(self).bytes@ =~= Seq::new(old(self).n as nat, |i: int| if at <= i < at + n { Some(src@[i - at]) } else { old(self).bytes@[i] })
    { unimplemented!() }
}
fn v_plus(a: usize, n: usize) -> (r: usize)
    requires a + n <= usize::MAX
    ensures r == a + n
{ a + n }
impl SharedBytesBuilder {
//@fn std.rs <SharedBytesBuilder as Write>::write
//@ret r
//@sig std::io::Result => IoResult
//@refuse old(self).off + buf@.len() > MAX
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self)@ =~= old(self)@ + buf@, r matches Ok(n) && n == buf@.len(), final(self).align == old(self).align
//@end
//@fn std.rs <SharedBytesBuilder as Write>::flush
//@ret r
//@sig std::io::Result => IoResult
//@spec
    ensures r is Ok, *final(self) == *old(self)
//@end
//@fn std.rs <SharedBytesBuilder as Write>::write_vectored/inner as write_vectored_inner
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@sig targ : & mut [ core::mem::MaybeUninit<u8> ] => v_room: &mut Room
//@sig & [ std::io::IoSlice<'_> ] => &Slices
//@sub let max = targ . len ( ) => let max = v_room.len()
//@sub let targ : * mut core::mem::MaybeUninit<u8> = targ . as_mut_ptr ( ) ; => let targ: usize = 0;
//@sub let mut targ = targ . cast::<u8> ( ) ; => let mut targ = targ;
//@sub for $x in bufs => for $x in bufs.v_iter()
//@iter 0 it
//@sub core::ptr::copy_nonoverlapping ( $x . as_ptr ( ) , targ , $(n) ) => v_room.v_fill(targ, $x, $(n))
//@sub targ . add ( $(x) ) => v_plus(targ, $(x))
//@spec
    requires old(v_room).wf(), glued(bufs@).len() <= usize::MAX
    ensures
        final(v_room).wf(), final(v_room).n == old(v_room).n, r == least(glued(bufs@).len() as int, old(v_room).n as int),
        final(v_room).has(r as int), final(v_room).put(r as int) =~= glued(bufs@).take(r as int)
//@loop 0 for
    invariant
        it.at <= it.of@.len(), it.of == bufs, v_room.wf(), v_room.n == max, max == old(v_room).n, targ == len, glued(bufs@.take(it.at as int)).len() <= glued(bufs@).len(),
        len == least(glued(bufs@.take(it.at as int)).len() as int, max as int), v_room.has(len as int), v_room.put(len as int) =~= glued(bufs@.take(it.at as int)).take(len as int)
    ensures it.at == bufs@.len()
    decreases bufs@.len() - it.at
//@at loop 0 before
    proof { assert(glued(bufs@.take(0)) =~= Seq::<u8>::empty()); }
//@at loop 0 start
    proof { part(bufs@, it.at - 1); }
    let ghost was = v_room.put(len as int);
    let ghost n0 = len as int;
//@at loop 0 end
    proof {
        assert(v_room.put(len as int) =~= was + buf@.take(len - n0));
    }
//@at loop 0 after
    proof { assert(bufs@.take(bufs@.len() as int) =~= bufs@); }
//@end
//@fn std.rs <SharedBytesBuilder as Write>::write_vectored
//@ret r
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@drop inner
//@sig & [ std::io::IoSlice<'_> ] => &Slices
//@sig std::io::Result => IoResult
//@sub std::io::Error::new ( $(a) , $(b) , ) => IoError
//@sub for $x in bufs => for $x in bufs.v_iter()
//@iter 0 it
//@sub inner ( targ , bufs ) => Self::write_vectored_inner(&mut targ, bufs)
//@sub | targ | { let out_len = $(a) ; ( out_len , out_len ) } => |mut targ: Room| -> (v: ((usize, usize), Room)) requires targ.wf() ensures v.0.0 == v.0.1, v.1.wf(), v.1.n == targ.n, v.0.1 == least(glued(bufs@).len() as int, targ.n as int), v.1.has(v.0.1 as int), v.1.put(v.0.1 as int) =~= glued(bufs@).take(v.0.1 as int) { let out_len = $(a); ((out_len, out_len), targ) }
//@spec
    requires old(self).wf(), glued(bufs@).len() <= usize::MAX
    ensures
        final(self).wf(), final(self).align == old(self).align,
        match r {
            Ok(n) => n <= glued(bufs@).len() && final(self)@ =~= old(self)@ + glued(bufs@).take(n as int) && (old(self).off + glued(bufs@).len() <= MAX ==> n == glued(bufs@).len()),
            Err(_) => final(self)@ =~= old(self)@ && old(self).off + glued(bufs@).len() > MAX,
        }
//@at loop 0 before
    proof { assert(glued(bufs@.take(0)) =~= Seq::<u8>::empty()); }
//@loop 0 for
    invariant it.at <= it.of@.len(), it.of == bufs, len == glued(bufs@.take(it.at as int)).len(), len <= glued(bufs@).len()
    ensures it.at == bufs@.len()
    decreases bufs@.len() - it.at
//@at loop 0 start
    proof { part(bufs@, it.at - 1); }
//@at loop 0 after
    proof { assert(bufs@.take(bufs@.len() as int) =~= bufs@); }
//@end
}

} // verus!
fn main() {}
