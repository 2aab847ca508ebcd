//@props P20
//@title rendering bytes as byte-string literals and as hexadecimal digits, for every content, width and division
//@assume the formatter appends what it is given or fails; `{:02x}` and `{:02X}` write two hexadecimal digits
//@assume twice the length of a queue is at most usize::MAX
use vstd::prelude::*;

verus! {

global size_of usize == 8;

//@uses queue.rs

// ---- what lies outside: the formatter ----

pub struct Error;
/// Where text is written to: the text so far, whether writing failed, and the width that was asked for.
#[verifier::external_body]
pub struct Formatter { p: u8 }
impl View for Formatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Formatter {
    pub uninterp spec fn failed(&self) -> bool;
    pub uninterp spec fn asked(&self) -> Option<usize>;
    pub open spec fn put(&self, was: &Self, t: Seq<char>, r: Result<(), Error>) -> bool {
        &&& self.asked() == was.asked()
        &&& r is Ok ==> self@ == was@ + t && self.failed() == was.failed()
        &&& r is Err ==> self.failed()
    }
    #[verifier::external_body]
    fn width(&self) -> (r: Option<usize>) ensures r == self.asked() { unimplemented!() }
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: Result<(), Error>) ensures final(self).put(old(self), s@, r) { unimplemented!() }
    #[verifier::external_body]
    fn write_char(&mut self, c: char) -> (r: Result<(), Error>) ensures final(self).put(old(self), seq![c], r) { unimplemented!() }
    /// `write!(f, "\\x{b:02x}")`
    #[verifier::external_body]
    fn v_escape(&mut self, b: u8) -> (r: Result<(), Error>) ensures final(self).put(old(self), seq!['\\', 'x'] + two(b, false), r) { unimplemented!() }
    #[verifier::external_body]
    fn v_escape_upper(&mut self, b: u8) -> (r: Result<(), Error>) ensures final(self).put(old(self), seq!['\\', 'x'] + two(b, true), r) { unimplemented!() }
    /// `write!(f, "{:02x}", b)`
    #[verifier::external_body]
    fn v_lower(&mut self, b: u8) -> (r: Result<(), Error>) ensures final(self).put(old(self), two(b, false), r) { unimplemented!() }
    #[verifier::external_body]
    fn v_upper(&mut self, b: u8) -> (r: Result<(), Error>) ensures final(self).put(old(self), two(b, true), r) { unimplemented!() }
}
/// `from_utf8_unchecked(&[b])`
#[verifier::external_body]
fn v_ascii(b: &[u8; 1]) -> (r: &str)
    requires b@[0] < 0x80
    ensures r@ == seq![b@[0] as char]
{ unimplemented!() }
/// A slice is at most isize::MAX bytes long.
#[verifier::external_body]
fn v_slice_len(s: &[u8])
    ensures s@.len() <= isize::MAX
{ }
/// The bytes of a slice, one after the other.
#[verifier::external_body]
pub struct Each<'a> { p: &'a u8 }
impl<'a> View for Each<'a> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
fn v_each<'a>(s: &'a [u8]) -> (r: Each<'a>) ensures r@ == s@ { unimplemented!() }
impl<'a> Each<'a> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<u8>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        }
    { unimplemented!() }
}
/// What has bytes (`AsRef<[u8]>`).
pub trait AsBytes {
    spec fn bytes(&self) -> Seq<u8>;
    fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes();
}

// ---- what a text means ----

pub open spec fn digit(n: int, upper: bool) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' }
    else if n == 8 { '8' } else if n == 9 { '9' } else if n == 10 { if upper { 'A' } else { 'a' } } else if n == 11 { if upper { 'B' } else { 'b' } } else if n == 12 { if upper { 'C' } else { 'c' } }
    else if n == 13 { if upper { 'D' } else { 'd' } } else if n == 14 { if upper { 'E' } else { 'e' } } else { if upper { 'F' } else { 'f' } }
}
/// Two hexadecimal digits.
pub open spec fn two(b: u8, upper: bool) -> Seq<char> { seq![digit(b as int / 16, upper), digit(b as int % 16, upper)] }
pub open spec fn hex(s: Seq<u8>, upper: bool) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { two(s[0], upper) + hex(s.skip(1), upper) }
}
pub open spec fn zeros(n: int) -> Seq<char> { Seq::new(if n < 0 { 0 } else { n as nat }, |i: int| '0') }
/// The digits, with zeros in front up to the width.
pub open spec fn padded(s: Seq<u8>, upper: bool, w: Option<usize>) -> Seq<char> {
    (match w { Some(w) => zeros(w - 2 * s.len()), None => Seq::empty() }) + hex(s, upper)
}
pub open spec fn undigit(c: char) -> Option<int> {
    if '0' <= c <= '9' { Some(c as int - '0' as int) } else if 'a' <= c <= 'f' { Some(c as int - 'a' as int + 10) } else if 'A' <= c <= 'F' { Some(c as int - 'A' as int + 10) } else { None }
}
/// The first byte that a byte-string literal denotes from here on (after `b"`), and how many characters it takes (the Rust reference).
pub open spec fn lexed(t: Seq<char>) -> Option<(int, int)> {
    if t.len() == 0 || t[0] == '"' || t[0] == '\r' || t[0] as int >= 0x80 { None }
    else if t[0] != '\\' { Some((1, t[0] as int)) }
    else if t.len() < 2 { None }
    else if t[1] == '\\' || t[1] == '"' || t[1] == '\'' { Some((2, t[1] as int)) }
    else if t[1] == 'n' { Some((2, 10)) } else if t[1] == 'r' { Some((2, 13)) } else if t[1] == 't' { Some((2, 9)) } else if t[1] == '0' { Some((2, 0)) }
    else if t[1] == 'x' && t.len() >= 4 && undigit(t[2]) is Some && undigit(t[3]) is Some { Some((4, undigit(t[2])->0 * 16 + undigit(t[3])->0)) }
    else { None }
}
/// The inside of a byte-string literal denotes these bytes.
pub open spec fn denotes(t: Seq<char>, b: Seq<u8>) -> bool
    decreases t.len()
{
    if t.len() == 0 { b.len() == 0 } else {
        match lexed(t) { Some((n, x)) => 0 < n <= t.len() && b.len() > 0 && b[0] == x && denotes(t.skip(n), b.skip(1)), None => false }
    }
}
proof fn denotes_join(t: Seq<char>, b: Seq<u8>, u: Seq<char>, c: Seq<u8>)
    requires denotes(t, b), denotes(u, c)
    ensures denotes(t + u, b + c)
    decreases t.len()
{
    if t.len() == 0 {
        assert(t + u =~= u);
        assert(b + c =~= c);
    } else {
        let (n, x) = lexed(t)->0;
        assert(lexed(t + u) == lexed(t));
        denotes_join(t.skip(n), b.skip(1), u, c);
        assert((t + u).skip(n) =~= t.skip(n) + u);
        assert((b + c).skip(1) =~= b.skip(1) + c);
    }
}
/// One piece that denotes one byte.
proof fn denotes_one(t: Seq<char>, b: u8)
    requires lexed(t) == Some((t.len() as int, b as int)), t.len() > 0
    ensures denotes(t, seq![b])
{
    assert(t.skip(t.len() as int).len() == 0);
    assert(denotes(t.skip(t.len() as int), seq![b].skip(1)));
}
proof fn two_back(b: u8)
    ensures
        undigit(digit(b as int / 16, false)) == Some(b as int / 16), undigit(digit(b as int % 16, false)) == Some(b as int % 16),
        undigit(digit(b as int / 16, true)) == Some(b as int / 16), undigit(digit(b as int % 16, true)) == Some(b as int % 16),
        b as int / 16 * 16 + b as int % 16 == b,
{ }
proof fn escaped(b: u8)
    ensures
        denotes(seq!['\\', 'x'] + two(b, false), seq![b]), denotes(seq!['\\', 'x'] + two(b, true), seq![b]),
        b < 0x80 && b != 0x22 && b != 0x5c && b != 13 ==> denotes(seq![b as char], seq![b]),
{
    two_back(b);
    denotes_one(seq!['\\', 'x'] + two(b, false), b);
    denotes_one(seq!['\\', 'x'] + two(b, true), b);
    if b < 0x80 && b != 0x22 && b != 0x5c && b != 13 { denotes_one(seq![b as char], b); }
}
proof fn hex_join(a: Seq<u8>, b: Seq<u8>, upper: bool)
    ensures hex(a + b, upper) =~= hex(a, upper) + hex(b, upper)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); } else {
        hex_join(a.skip(1), b, upper);
        assert((a + b).skip(1) =~= a.skip(1) + b);
    }
}
proof fn hex_one(b: u8, upper: bool)
    ensures hex(seq![b], upper) =~= two(b, upper)
{
    assert(seq![b].skip(1) =~= Seq::<u8>::empty());
    assert(hex(Seq::<u8>::empty(), upper) =~= Seq::<char>::empty());
}
/// What was written since `was`.
pub open spec fn since(was: Seq<char>, now: Seq<char>) -> Seq<char> { now.skip(was.len() as int) }
/// All that was done is that text was written, or writing failed; it denotes the bytes.
pub open spec fn spelled(f: &Formatter, was: &Formatter, r: Result<(), Error>, b: Seq<u8>) -> bool {
    &&& f.asked() == was.asked()
    &&& r is Ok ==> was@.len() <= f@.len() && f@.take(was@.len() as int) =~= was@ && denotes(since(was@, f@), b) && f.failed() == was.failed()
    &&& r is Err ==> f.failed()
}
/// A whole literal, with its quotes.
pub open spec fn literal(t: Seq<char>, b: Seq<u8>) -> bool {
    3 <= t.len() && t[0] == 'b' && t[1] == '"' && t.last() == '"' && denotes(t.subrange(2, t.len() - 1), b)
}
pub open spec fn quoted(f: &Formatter, was: &Formatter, r: Result<(), Error>, b: Seq<u8>) -> bool {
    &&& f.asked() == was.asked()
    &&& r is Ok ==> was@.len() <= f@.len() && f@.take(was@.len() as int) =~= was@ && literal(since(was@, f@), b) && f.failed() == was.failed()
    &&& r is Err ==> f.failed()
}
pub open spec fn hexed(f: &Formatter, was: &Formatter, r: Result<(), Error>, b: Seq<u8>, upper: bool) -> bool {
    &&& f.asked() == was.asked()
    &&& r is Ok ==> f@ =~= was@ + padded(b, upper, was.asked()) && f.failed() == was.failed()
    &&& r is Err ==> f.failed()
}
proof fn wrapped(w: Seq<char>, m: Seq<char>, b: Seq<u8>)
    requires m.len() >= w.len() + 2, m.take(w.len() as int + 2) =~= w + seq!['b', '"'], denotes(since(w + seq!['b', '"'], m), b)
    ensures ({ let now = m + seq!['"']; literal(since(w, now), b) && now.take(w.len() as int) =~= w })
{
    let q = seq!['b', '"'];
    let now = m + seq!['"'];
    let t = since(w, now);
    assert(t.subrange(2, t.len() - 1) =~= since(w + q, m));
    assert forall|i: int| 0 <= i < w.len() + 2 implies now[i] == (w + q)[i] by { assert(now[i] == m.take(w.len() as int + 2)[i]); }
    assert(t[0] == (w + q)[w.len() as int]);
    assert(t[1] == (w + q)[w.len() as int + 1]);
}
proof fn strs()
    ensures "\\\\"@ =~= seq!['\\', '\\'], "\\\""@ =~= seq!['\\', '"'], "\\n"@ =~= seq!['\\', 'n'], "\\r"@ =~= seq!['\\', 'r'], "\\t"@ =~= seq!['\\', 't'], "b\""@ =~= seq!['b', '"'], "\""@ =~= seq!['"'], "0"@ =~= seq!['0'],
        "\\0"@ =~= seq!['\\', '0'], "\\'"@ =~= seq!['\\', '\''],
{
    reveal_strlit("\\\\"); reveal_strlit("\\\""); reveal_strlit("\\n"); reveal_strlit("\\r"); reveal_strlit("\\t"); reveal_strlit("b\""); reveal_strlit("\""); reveal_strlit("0"); reveal_strlit("\\0"); reveal_strlit("\\'");
}
/// The escapes of one letter.
proof fn short()
    ensures
        denotes(seq!['\\', '\\'], seq![0x5cu8]), denotes(seq!['\\', '"'], seq![0x22u8]), denotes(seq!['\\', 'n'], seq![10u8]), denotes(seq!['\\', 'r'], seq![13u8]),
        denotes(seq!['\\', 't'], seq![9u8]), denotes(seq!['\\', '0'], seq![0u8]), denotes(seq!['\\', '\''], seq![0x27u8]),
{
    denotes_one(seq!['\\', '\\'], 0x5c); denotes_one(seq!['\\', '"'], 0x22); denotes_one(seq!['\\', 'n'], 10); denotes_one(seq!['\\', 'r'], 13); denotes_one(seq!['\\', 't'], 9);
    denotes_one(seq!['\\', '0'], 0); denotes_one(seq!['\\', '\''], 0x27);
}
/// The bytes written so far, and one more.
proof fn spelled_more(was: Seq<char>, now: Seq<char>, b: Seq<u8>, t: Seq<char>, c: Seq<u8>)
    requires was.len() <= now.len(), now.take(was.len() as int) =~= was, denotes(since(was, now), b), denotes(t, c)
    ensures (now + t).take(was.len() as int) =~= was, denotes(since(was, now + t), b + c)
{
    denotes_join(since(was, now), b, t, c);
    assert(since(was, now + t) =~= since(was, now) + t);
}

// ---- one slice ----

/// `str`: its bytes.
#[verifier::external_body]
pub struct StrRef(u8);
impl View for StrRef { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl StrRef {
    #[verifier::external_body]
    const fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
//@item byte_string_render.rs struct ByteStringRender ( & => (pub &
impl<'a> ByteStringRender<'a> {
//@fn byte_string_render.rs ByteStringRender::as_slice
//@ret r
//@spec
    ensures r@ == self.0@
//@end
//@fn byte_string_render.rs ByteStringRender::from_slice
//@ret r
//@spec
    ensures r.0@ == slice@
//@end
//@fn byte_string_render.rs ByteStringRender::from_str
//@ret r
//@sig & 'a str => &'a StrRef
//@spec
    ensures r.0@ == slice@
//@end
//@fn byte_string_render.rs <ByteStringRender as From<&'a[u8]>>::from as from_slice_value
//@ret r
//@spec
    ensures r.0@ == value@
//@end
//@fn byte_string_render.rs <ByteStringRender as From<&'a str>>::from as from_text
//@ret r
//@sig & 'a str => &'a StrRef
//@spec
    ensures r.0@ == value@
//@end
//@fn byte_string_render.rs ByteStringRender::from_ref
//@ret r
//@sig AsRef < [ u8 ] >> => AsBytes>
//@spec
    ensures r.0@ == slice.bytes()
//@end
//@fn byte_string_render.rs <ByteStringRender as Display>::fmt as display
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt for & by in self . 0 { =>> for by in v_each(self.0) {
//@opt for & by in self . as_slice ( ) { =>> for by in v_each(self.as_slice()) {
//@opt ( 32 .. 127 ) . contains ( & by ) => (32 <= by && by < 127)
//@opt ( 32 ..= 126 ) . contains ( & by ) => (32 <= by && by <= 126)
//@opt unsafe { core::str::from_utf8_unchecked ( $(x) ) } => v_ascii($(x))
//@opt f . write_fmt ( format_args ! ( "\\x{by:02x}" ) ) => f.v_escape(by)
//@opt f . write_fmt ( format_args ! ( "\\x{by:02X}" ) ) => f.v_escape_upper(by)
//@opt write ! ( f , "\\x{by:02x}" ) => f.v_escape(by)
//@spec
    ensures spelled(final(f), old(f), r, self.0@)
//@at start
    proof { strs(); short(); assert(since(f@, f@) =~= Seq::<char>::empty()); }
    let ghost mut done = Seq::<u8>::empty();
//@iter 0 it
//@loop 0 for
    invariant
        f.asked() == old(f).asked(), f.failed() == old(f).failed(), old(f)@.len() <= f@.len(), f@.take(old(f)@.len() as int) =~= old(f)@,
        denotes(since(old(f)@, f@), done), done + it@ =~= self.0@
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    let ghost before = f@;
    proof { escaped(by); assert forall|x: Seq<char>| #[trigger] since(before, before + x) == x by { assert(since(before, before + x) =~= x); } }
//@at loop 0 end
    proof {
        let t = since(before, f@);
        assert(f@ =~= before + t);
        spelled_more(old(f)@, before, done, t, seq![by]);
        done = done + seq![by];
    }
//@at tail
    proof { assert(done =~= self.0@); }
//@end
//@fn byte_string_render.rs <ByteStringRender as Debug>::fmt as debug
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt core::fmt::Display::fmt ( self , f ) => self.display(f)
//@spec
    ensures quoted(final(f), old(f), r, self.0@)
//@at start
    proof { strs(); }
//@at tail
    proof { if v_tail is Ok { let m = f@.drop_last(); assert forall|x: Seq<char>| #[trigger] (x + seq!['"']).drop_last() == x by { assert((x + seq!['"']).drop_last() =~= x); } assert(m + seq!['"'] =~= f@); wrapped(old(f)@, m, self.0@); } }
//@end
//@fn byte_string_render.rs <ByteStringRender as LowerHex>::fmt as lower_hex
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@spec
    ensures hexed(final(f), old(f), r, self.0@, false)
//@end
//@fn byte_string_render.rs <ByteStringRender as UpperHex>::fmt as upper_hex
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@spec
    ensures hexed(final(f), old(f), r, self.0@, true)
//@end
}

//@fn byte_string_render.rs lower_hex_slice
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt core::fmt::Write::write_str ( $x , $(y) ) => $x.write_str($(y))
//@opt write ! ( $x , "{:02x}" , $(y) ) => $x.v_lower($(y))
//@opt write ! ( $x , "{:02X}" , $(y) ) => $x.v_upper($(y))
//@opt for _ in 0 .. => for v_i in 0..
//@spec
    ensures hexed(final(fmt), old(fmt), r, sl@, false)
//@at start
    proof { strs(); let n = sl@.len() as usize; assert(n <= 0x7fff_ffff_ffff_ffffusize ==> n << 1u8 == 2 * n) by (bit_vector); }
    v_slice_len(sl);
    let ghost pad = Seq::<char>::empty();
//@loop 0 for
    invariant fmt.asked() == old(fmt).asked(), fmt.failed() == old(fmt).failed(), fmt@ =~= old(fmt)@ + zeros(v_i as int)
//@loop 1 while
    invariant
        i <= sl@.len(), fmt.asked() == old(fmt).asked(), fmt.failed() == old(fmt).failed(),
        fmt@ =~= old(fmt)@ + (match old(fmt).asked() { Some(w) => zeros(w - 2 * sl@.len()), None => Seq::empty() }) + hex(sl@.take(i as int), false)
    decreases sl@.len() - i
//@at loop 1 before
    proof { assert(hex(sl@.take(0), false) =~= Seq::<char>::empty()); }
//@at loop 1 start
    proof { hex_join(sl@.take(i as int), seq![sl@[i as int]], false); hex_one(sl@[i as int], false); assert(sl@.take(i + 1) =~= sl@.take(i as int) + seq![sl@[i as int]]); }
//@at tail
    proof { assert(sl@.take(sl@.len() as int) =~= sl@); }
//@end

//@fn byte_string_render.rs upper_hex_slice
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt core::fmt::Write::write_str ( $x , $(y) ) => $x.write_str($(y))
//@opt write ! ( $x , "{:02x}" , $(y) ) => $x.v_lower($(y))
//@opt write ! ( $x , "{:02X}" , $(y) ) => $x.v_upper($(y))
//@opt for _ in 0 .. => for v_i in 0..
//@spec
    ensures hexed(final(fmt), old(fmt), r, sl@, true)
//@at start
    proof { strs(); let n = sl@.len() as usize; assert(n <= 0x7fff_ffff_ffff_ffffusize ==> n << 1u8 == 2 * n) by (bit_vector); }
    v_slice_len(sl);
    let ghost pad = Seq::<char>::empty();
//@loop 0 for
    invariant fmt.asked() == old(fmt).asked(), fmt.failed() == old(fmt).failed(), fmt@ =~= old(fmt)@ + zeros(v_i as int)
//@loop 1 while
    invariant
        i <= sl@.len(), fmt.asked() == old(fmt).asked(), fmt.failed() == old(fmt).failed(),
        fmt@ =~= old(fmt)@ + (match old(fmt).asked() { Some(w) => zeros(w - 2 * sl@.len()), None => Seq::empty() }) + hex(sl@.take(i as int), true)
    decreases sl@.len() - i
//@at loop 1 before
    proof { assert(hex(sl@.take(0), true) =~= Seq::<char>::empty()); }
//@at loop 1 start
    proof { hex_join(sl@.take(i as int), seq![sl@[i as int]], true); hex_one(sl@[i as int], true); assert(sl@.take(i + 1) =~= sl@.take(i as int) + seq![sl@[i as int]]); }
//@at tail
    proof { assert(sl@.take(sl@.len() as int) =~= sl@); }
//@end

// ---- values: their bytes by the contracts of P01, P03, P04, P05 ----
impl<'a> ByteData<'a> {
//@fn bytedata.rs <ByteData as Debug>::fmt as debug
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt core::fmt::Debug::fmt ( & ByteStringRender::from_slice ( $(x) ) , f ) => ByteStringRender::from_slice($(x)).debug(f)
//@opt core::fmt::Debug::fmt ( & rend , f ) => rend.debug(f)
//@spec
    ensures quoted(final(f), old(f), r, self@)
//@end
//@fn bytedata.rs <ByteData as LowerHex>::fmt as lower_hex
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt byte_string_render::lower_hex_slice => lower_hex_slice
//@opt byte_string_render::upper_hex_slice => upper_hex_slice
//@spec
    ensures hexed(final(f), old(f), r, self@, false)
//@end
//@fn bytedata.rs <ByteData as UpperHex>::fmt as upper_hex
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt byte_string_render::lower_hex_slice => lower_hex_slice
//@opt byte_string_render::upper_hex_slice => upper_hex_slice
//@spec
    ensures hexed(final(f), old(f), r, self@, true)
//@end
}
#[verifier::external_body]
pub struct SharedBytes { p: u8 }
impl View for SharedBytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl SharedBytes {
    #[verifier::external_body]
    fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl SharedBytes {
//@fn shared_bytes.rs <SharedBytes as LowerHex>::fmt as lower_hex
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt byte_string_render::lower_hex_slice => lower_hex_slice
//@opt byte_string_render::upper_hex_slice => upper_hex_slice
//@spec
    ensures hexed(final(f), old(f), r, self@, false)
//@end
//@fn shared_bytes.rs <SharedBytes as UpperHex>::fmt as upper_hex
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt byte_string_render::lower_hex_slice => lower_hex_slice
//@opt byte_string_render::upper_hex_slice => upper_hex_slice
//@spec
    ensures hexed(final(f), old(f), r, self@, true)
//@end
}
#[verifier::external_body]
pub struct SharedBytesBuilder { p: u8 }
impl View for SharedBytesBuilder { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl SharedBytesBuilder {
    #[verifier::external_body]
    fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl SharedBytesBuilder {
//@fn shared_bytes_builder.rs <SharedBytesBuilder as LowerHex>::fmt as lower_hex
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt byte_string_render::lower_hex_slice => lower_hex_slice
//@opt byte_string_render::upper_hex_slice => upper_hex_slice
//@spec
    ensures hexed(final(f), old(f), r, self@, false)
//@end
//@fn shared_bytes_builder.rs <SharedBytesBuilder as UpperHex>::fmt as upper_hex
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt byte_string_render::lower_hex_slice => lower_hex_slice
//@opt byte_string_render::upper_hex_slice => upper_hex_slice
//@spec
    ensures hexed(final(f), old(f), r, self@, true)
//@end
}
#[verifier::external_body]
pub struct ByteChunk { p: u8 }
impl View for ByteChunk { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl ByteChunk {
    #[verifier::external_body]
    fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl ByteChunk {
//@fn byte_chunk.rs <ByteChunk as Debug>::fmt as debug
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt core::fmt::Debug::fmt ( & ByteStringRender::from_slice ( $(x) ) , f ) => ByteStringRender::from_slice($(x)).debug(f)
//@opt core::fmt::Debug::fmt ( & rend , f ) => rend.debug(f)
//@spec
    ensures quoted(final(f), old(f), r, self@)
//@end
}

// ---- many slices ----

/// What is rendered piece by piece (`&T: IntoIterator`).
pub trait Pieces: Sized {
    spec fn pieces(&self) -> Seq<Seq<u8>>;
    fn v_iter<'p>(&'p self) -> (r: PieceIter<'p>) ensures r@ == self.pieces();
}
#[verifier::external_body]
pub struct PieceIter<'p> { p: &'p u8 }
impl<'p> View for PieceIter<'p> { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
#[verifier::external_body]
pub struct Piece<'p> { p: &'p u8 }
impl<'p> AsBytes for Piece<'p> {
    uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
impl<'p> PieceIter<'p> {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Piece<'p>>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            Some(x) => old(self)@.len() > 0 && x.bytes() == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        }
    { unimplemented!() }
}
pub struct MultiByteStringRender<'a, T> { pub inner: &'a T }
impl<'a, T: Pieces> MultiByteStringRender<'a, T> {
//@fn byte_string_render.rs MultiByteStringRender::new
//@ret r
//@opt _phantom : core::marker::PhantomData , =>
//@spec
    ensures r.inner == inner
//@end
//@fn byte_string_render.rs <MultiByteStringRender as Display>::fmt as display
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt for by in self . inner { =>> for by in self.inner.v_iter() {
//@opt core::fmt::Display::fmt ( & rend , f ) => rend.display(f)
//@opt core::fmt::Display::fmt ( & ByteStringRender::from_slice ( $(x) ) , f ) => ByteStringRender::from_slice($(x)).display(f)
//@spec
    ensures spelled(final(f), old(f), r, flat(self.inner.pieces()))
//@at start
    proof { assert(since(f@, f@) =~= Seq::<char>::empty()); }
    let ghost mut done = Seq::<u8>::empty();
//@iter 0 it
//@loop 0 for
    invariant
        f.asked() == old(f).asked(), f.failed() == old(f).failed(), old(f)@.len() <= f@.len(), f@.take(old(f)@.len() as int) =~= old(f)@,
        denotes(since(old(f)@, f@), done), done + flat(it@) =~= flat(self.inner.pieces())
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 0 start
    let ghost before = f@;
//@at loop 0 end
    proof {
        let t = since(before, f@);
        assert(f@ =~= before + t);
        spelled_more(old(f)@, before, done, t, by.bytes());
        done = done + by.bytes();
    }
//@at tail
    proof { assert(done =~= flat(self.inner.pieces())); }
//@end
//@fn byte_string_render.rs <MultiByteStringRender as Debug>::fmt as debug
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt core::fmt::Display::fmt ( self , f ) => self.display(f)
//@spec
    ensures quoted(final(f), old(f), r, flat(self.inner.pieces()))
//@at start
    proof { strs(); }
//@at tail
    proof { if v_tail is Ok { let m = f@.drop_last(); assert forall|x: Seq<char>| #[trigger] (x + seq!['"']).drop_last() == x by { assert((x + seq!['"']).drop_last() =~= x); } assert(m + seq!['"'] =~= f@); wrapped(old(f)@, m, flat(self.inner.pieces())); } }
//@end
}

impl<'a> Pieces for ByteQueue<'a> {
    open spec fn pieces(&self) -> Seq<Seq<u8>> { self.queue@ }
    #[verifier::external_body]
    fn v_iter<'p>(&'p self) -> (r: PieceIter<'p>) { unimplemented!() }
}
impl<'a> ByteQueue<'a> {
//@fn queue/byte_queue.rs <ByteQueue as Debug>::fmt as debug
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt core::fmt::Debug::fmt ( & r , f ) => r.debug(f)
//@spec
    requires self.wf()
    ensures quoted(final(f), old(f), r, self@)
//@end
//@fn queue/byte_queue.rs <ByteQueue as LowerHex>::fmt as lower_hex
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt core::fmt::Write::write_str ( $x , $(y) ) => $x.write_str($(y))
//@opt write ! ( $x , "{:02x}" , $(y) ) => $x.v_lower($(y))
//@opt write ! ( $x , "{:02X}" , $(y) ) => $x.v_upper($(y))
//@opt for _ in 0 .. => for v_i in 0..
//@spec
    requires self.wf(), 2 * self@.len() <= usize::MAX
    ensures hexed(final(f), old(f), r, self@, false)
//@at start
    proof { strs(); }
    let ghost mut done = Seq::<u8>::empty();
    let ghost pad = match old(f).asked() { Some(w) => zeros(w - 2 * self@.len()), None => Seq::empty() };
//@loop 0 for
    invariant f.asked() == old(f).asked(), f.failed() == old(f).failed(), f@ =~= old(f)@ + zeros(v_i as int)
//@iter 1 it
//@loop 1 for
    invariant
        f.asked() == old(f).asked(), f.failed() == old(f).failed(), done + flat(it@) =~= self@,
        f@ =~= old(f)@ + pad + hex(done, false)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 1 before
    proof { assert(hex(Seq::<u8>::empty(), false) =~= Seq::<char>::empty()); }
//@at loop 1 end
    proof { assert(s@.take(s@.len() as int) =~= s@); hex_join(done, s@, false); done = done + s@; }
//@loop 2 while
    invariant
        i <= s@.len(), f.asked() == old(f).asked(), f.failed() == old(f).failed(),
        f@ =~= old(f)@ + pad + hex(done, false) + hex(s@.take(i as int), false)
    decreases s@.len() - i
//@at loop 2 before
    proof { assert(hex(s@.take(0), false) =~= Seq::<char>::empty()); }
//@at loop 2 start
    proof { hex_join(s@.take(i as int), seq![s@[i as int]], false); hex_one(s@[i as int], false); assert(s@.take(i + 1) =~= s@.take(i as int) + seq![s@[i as int]]); }
//@at tail
    proof { assert(done =~= self@); }
//@end
//@fn queue/byte_queue.rs <ByteQueue as UpperHex>::fmt as upper_hex
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ret r
//@sig & mut core::fmt::Formatter<'_> => &mut Formatter
//@sig core::fmt::Result => Result<(), Error>
//@opt core::fmt::Write::write_str ( $x , $(y) ) => $x.write_str($(y))
//@opt write ! ( $x , "{:02x}" , $(y) ) => $x.v_lower($(y))
//@opt write ! ( $x , "{:02X}" , $(y) ) => $x.v_upper($(y))
//@opt for _ in 0 .. => for v_i in 0..
//@spec
    requires self.wf(), 2 * self@.len() <= usize::MAX
    ensures hexed(final(f), old(f), r, self@, true)
//@at start
    proof { strs(); }
    let ghost mut done = Seq::<u8>::empty();
    let ghost pad = match old(f).asked() { Some(w) => zeros(w - 2 * self@.len()), None => Seq::empty() };
//@loop 0 for
    invariant f.asked() == old(f).asked(), f.failed() == old(f).failed(), f@ =~= old(f)@ + zeros(v_i as int)
//@iter 1 it
//@loop 1 for
    invariant
        f.asked() == old(f).asked(), f.failed() == old(f).failed(), done + flat(it@) =~= self@,
        f@ =~= old(f)@ + pad + hex(done, true)
    ensures it@.len() == 0
    decreases it@.len()
//@at loop 1 before
    proof { assert(hex(Seq::<u8>::empty(), true) =~= Seq::<char>::empty()); }
//@at loop 1 end
    proof { assert(s@.take(s@.len() as int) =~= s@); hex_join(done, s@, true); done = done + s@; }
//@loop 2 while
    invariant
        i <= s@.len(), f.asked() == old(f).asked(), f.failed() == old(f).failed(),
        f@ =~= old(f)@ + pad + hex(done, true) + hex(s@.take(i as int), true)
    decreases s@.len() - i
//@at loop 2 before
    proof { assert(hex(s@.take(0), true) =~= Seq::<char>::empty()); }
//@at loop 2 start
    proof { hex_join(s@.take(i as int), seq![s@[i as int]], true); hex_one(s@[i as int], true); assert(s@.take(i + 1) =~= s@.take(i as int) + seq![s@[i as int]]); }
//@at tail
    proof { assert(done =~= self@); }
//@end
}

} // verus!
fn main() {}
