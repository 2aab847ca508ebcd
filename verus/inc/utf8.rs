// ---- specification: table 3-7 of the Unicode standard ----

pub open spec fn cont(b: u8) -> bool { 0x80 <= b <= 0xbf }

/// Width of the well-formed character at the start of `s`; 0 if there is none.
pub open spec fn width(s: Seq<u8>) -> int {
    if s.len() >= 1 && s[0] <= 0x7f { 1 }
    else if s.len() >= 2 && 0xc2 <= s[0] <= 0xdf && cont(s[1]) { 2 }
    else if s.len() >= 3 && 0xe0 <= s[0] <= 0xef && cont(s[1]) && cont(s[2])
        && (s[0] == 0xe0 ==> s[1] >= 0xa0) && (s[0] == 0xed ==> s[1] <= 0x9f) { 3 }
    else if s.len() >= 4 && 0xf0 <= s[0] <= 0xf4 && cont(s[1]) && cont(s[2]) && cont(s[3])
        && (s[0] == 0xf0 ==> s[1] >= 0x90) && (s[0] == 0xf4 ==> s[1] <= 0x8f) { 4 }
    else { 0 }
}

/// The code point of the character at the start of `s`, which has a width.
pub open spec fn value(s: Seq<u8>) -> int {
    if width(s) == 1 { s[0] as int }
    else if width(s) == 2 { (s[0] - 0xc0) * 0x40 + (s[1] - 0x80) }
    else if width(s) == 3 { (s[0] - 0xe0) * 0x1000 + (s[1] - 0x80) * 0x40 + (s[2] - 0x80) }
    else { (s[0] - 0xf0) * 0x40000 + (s[1] - 0x80) * 0x1000 + (s[2] - 0x80) * 0x40 + (s[3] - 0x80) }
}

/// Lead bits and the first `i` continuation bytes, put together.
pub open spec fn put(lead: int, s: Seq<u8>, i: int) -> int
    decreases i
{
    if i <= 0 { lead } else { put(lead, s, i - 1) * 0x40 + (s[i] - 0x80) }
}

pub open spec fn lead_bits(b: u8) -> int {
    if b < 0xe0 { b - 0xc0 } else if b < 0xf0 { b - 0xe0 } else { b - 0xf0 }
}

proof fn bits()
    ensures
        forall|b: u8| #![trigger b & 0b1000_0000] (b & 0b1000_0000 == 0) <==> b < 0x80,
        forall|b: u8| #![trigger b & 0b1100_0000] (b & 0b1100_0000 == 0b1000_0000) <==> cont(b),
        forall|b: u8| #![trigger b & 0b1100_0000] (b & 0b1100_0000 == 0b1100_0000) <==> b >= 0xc0,
        forall|b: u8| #![trigger b & 0b1110_0000] (b & 0b1110_0000 == 0b1100_0000) <==> 0xc0 <= b <= 0xdf,
        forall|b: u8| #![trigger b & 0b1111_0000] (b & 0b1111_0000 == 0b1110_0000) <==> 0xe0 <= b <= 0xef,
        forall|b: u8| #![trigger b & 0b1111_1000] (b & 0b1111_1000 == 0b1111_0000) <==> 0xf0 <= b <= 0xf7,
        forall|b: u8| #![trigger b & 0b0001_1111] 0xc0 <= b <= 0xdf ==> b & 0b0001_1111 == b - 0xc0,
        forall|b: u8| #![trigger b & 0b0000_1111] 0xe0 <= b <= 0xef ==> b & 0b0000_1111 == b - 0xe0,
        forall|b: u8| #![trigger b & 0b0000_0111] 0xf0 <= b <= 0xf7 ==> b & 0b0000_0111 == b - 0xf0,
        forall|v: u32, b: u8| #![trigger (v << 6u8) | ((b & 0b0011_1111) as u32)] v < 0x100000 && 0x80 <= b <= 0xbf ==> (v << 6u8) | ((b & 0b0011_1111) as u32) == v * 0x40 + (b - 0x80),
{
    assert(forall|b: u8| #![trigger b & 0b1000_0000] (b & 0b1000_0000 == 0) <==> b < 0x80) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0b1100_0000] (b & 0b1100_0000 == 0b1000_0000) <==> 0x80 <= b <= 0xbf) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0b1100_0000] (b & 0b1100_0000 == 0b1100_0000) <==> b >= 0xc0) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0b1110_0000] (b & 0b1110_0000 == 0b1100_0000) <==> 0xc0 <= b <= 0xdf) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0b1111_0000] (b & 0b1111_0000 == 0b1110_0000) <==> 0xe0 <= b <= 0xef) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0b1111_1000] (b & 0b1111_1000 == 0b1111_0000) <==> 0xf0 <= b <= 0xf7) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0b0001_1111] 0xc0 <= b <= 0xdf ==> b & 0b0001_1111 == b - 0xc0) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0b0000_1111] 0xe0 <= b <= 0xef ==> b & 0b0000_1111 == b - 0xe0) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0b0000_0111] 0xf0 <= b <= 0xf7 ==> b & 0b0000_0111 == b - 0xf0) by (bit_vector);
    assert(forall|v: u32, b: u8| #![trigger (v << 6u8) | ((b & 0b0011_1111) as u32)] v < 0x100000 && 0x80 <= b <= 0xbf ==> (v << 6u8) | ((b & 0b0011_1111) as u32) == v * 0x40 + (b - 0x80)) by (bit_vector);
}

proof fn put3(lead: int, s: Seq<u8>)
    ensures
        put(lead, s, 0) == lead,
        put(lead, s, 1) == lead * 0x40 + (s[1] - 0x80),
        put(lead, s, 2) == lead * 0x1000 + (s[1] - 0x80) * 0x40 + (s[2] - 0x80),
        put(lead, s, 3) == lead * 0x40000 + (s[1] - 0x80) * 0x1000 + (s[2] - 0x80) * 0x40 + (s[3] - 0x80),
{
    reveal_with_fuel(put, 5);
}

