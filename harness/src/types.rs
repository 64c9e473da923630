//! User-defined message types besides DLT, to bind the generic readers to the small-scope specification.
use matchit::searchable::SearchableMarkerTrait;
use matchit::FromBytesReadableTrait;

/// Marker 1 2, length byte 1..3 that counts itself and the bytes behind it.
#[derive(Debug, Clone, Copy)]
pub struct Mini(pub usize);

impl<'b> FromBytesReadableTrait<'b> for Mini {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> {
        if b.len() < 2 || b[..2] != [1, 2] { return None }
        Self::try_read_valid_marker(b)
    }
    fn len(&self) -> usize { self.0 }
    fn max_len() -> usize { 5 }
}

impl<'b> SearchableMarkerTrait<'b> for Mini {
    fn marker() -> &'static [u8] { &[1, 2] }
    fn try_read_valid_marker(b: &'b [u8]) -> Option<(usize, Self)> {
        let l = *b.get(2)? as usize;
        if l == 0 || l > 3 || b.len() < 2 + l { return None }
        Some((2 + l, Mini(2 + l)))
    }
}

/// Marker 1. The next byte, if it is 2 or 3, is the length of the message; other messages are only a marker.
#[derive(Debug, Clone, Copy)]
pub struct Tick(pub usize);

impl<'b> FromBytesReadableTrait<'b> for Tick {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> {
        if b.is_empty() || b[0] != 1 { return None }
        Self::try_read_valid_marker(b)
    }
    fn len(&self) -> usize { self.0 }
    fn max_len() -> usize { 3 }
}

impl<'b> SearchableMarkerTrait<'b> for Tick {
    fn marker() -> &'static [u8] { &[1] }
    fn try_read_valid_marker(b: &'b [u8]) -> Option<(usize, Self)> {
        let n = match b.get(1) {
            Some(2) => 2,
            Some(3) => 3,
            _ => 1,
        };
        if b.len() < n { return None }
        Some((n, Tick(n)))
    }
}

/// A marker, a byte that counts the bytes behind it, and these.
macro_rules! counted {
    ($name:ident, $marker:expr, $most:expr) => {
        #[derive(Debug, Clone, Copy)]
        pub struct $name(pub usize);

        impl<'b> FromBytesReadableTrait<'b> for $name {
            fn try_read(b: &'b [u8]) -> Option<(usize, Self)> {
                if !b.starts_with($marker) { return None }
                Self::try_read_valid_marker(b)
            }
            fn len(&self) -> usize { self.0 }
            fn max_len() -> usize { $marker.len() + 1 + $most }
        }

        impl<'b> SearchableMarkerTrait<'b> for $name {
            fn marker() -> &'static [u8] { $marker }
            fn try_read_valid_marker(b: &'b [u8]) -> Option<(usize, Self)> {
                let n = *b.get($marker.len())? as usize;
                let l = $marker.len() + 1 + n;
                if n > $most || b.len() < l { return None }
                Some((l, $name(l)))
            }
        }
    };
}
counted!(Trio, &[1u8, 1, 2], 2);
counted!(Word, b"abacabad", 200);

/// No marker: a byte that counts the bytes behind it, and these.
#[derive(Debug, Clone, Copy)]
pub struct Field(pub usize);

impl<'b> FromBytesReadableTrait<'b> for Field {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> {
        let n = *b.first()? as usize;
        if n > 2 || b.len() < 1 + n { return None }
        Some((1 + n, Field(1 + n)))
    }
    fn len(&self) -> usize { self.0 }
    fn max_len() -> usize { 3 }
}

/// No marker: always two bytes.
#[derive(Debug, Clone, Copy)]
pub struct Pair;

impl<'b> FromBytesReadableTrait<'b> for Pair {
    fn try_read(b: &'b [u8]) -> Option<(usize, Self)> { if b.len() < 2 { None } else { Some((2, Pair)) } }
    fn len(&self) -> usize { 2 }
    fn max_len() -> usize { 2 }
}
