//! The functions under test, uniformly.
use text_encoding::*;

pub enum E<'a> { Ok(&'a [u8], usize), Err(char, (usize, usize), usize) }
pub enum D<'a> { Ok(&'a str, usize), Err(bool, (usize, usize), usize) }

pub struct Api {
    pub name: &'static str,
    pub enc: for<'a> fn(&str, &'a mut [u8], bool) -> E<'a>,
    pub dec: for<'a> fn(&[u8], &'a mut [u8], bool) -> D<'a>,
    pub eflag: bool,
    pub dflag: bool,
}
fn e<'a>(r: EncodeResult<'a>) -> E<'a> {
    match r { Ok((b, n)) => E::Ok(b, n), Err(x) => E::Err(x.character, x.error_range, x.output_bytes_written) }
}
fn d<'a>(r: DecodeResult<'a>) -> D<'a> {
    match r { Ok((b, n)) => D::Ok(b, n), Err(x) => D::Err(match x.cause { DecodeErrorCause::InvalidData => true, _ => false }, x.error_range, x.output_bytes_written) }
}
macro_rules! ed {
    (@f $n:expr, $($m:ident)::+) => { Api { name: $n, enc: |i, o, _| e($($m)::+::encode_from_str(i, o)), dec: |i, o, x| d($($m)::+::decode_to_str(i, o, x)), eflag: false, dflag: true } };
    (@g $n:expr, $($m:ident)::+) => { Api { name: $n, enc: |i, o, x| e($($m)::+::encode_from_str(i, o, x)), dec: |i, o, x| d($($m)::+::decode_to_str(i, o, x)), eflag: true, dflag: true } };
    (@s $n:expr, $($m:ident)::+) => { Api { name: $n, enc: |i, o, _| e($($m)::+::encode_from_str(i, o)), dec: |i, o, _| d($($m)::+::decode_to_str(i, o)), eflag: false, dflag: false } };
}
macro_rules! sb { ($($m:ident),*) => { vec![$(ed!(@s concat!("single_byte__", stringify!($m)), single_byte::$m)),*] } }

pub fn all() -> Vec<Api> {
    let mut v = vec![
        ed!(@f "utf8", utf8), ed!(@f "utf16_le", utf16_le), ed!(@f "utf16_be", utf16_be),
        ed!(@f "utf32_le", utf32_le), ed!(@f "utf32_be", utf32_be),
        ed!(@g "big5_whatwg", big5_whatwg), ed!(@f "shiftjis_whatwg", shiftjis_whatwg),
    ];
    v.extend(sb!(ascii, ibm_866, iso_8859_1, iso_8859_2, iso_8859_3, iso_8859_4, iso_8859_5, iso_8859_6, iso_8859_7,
        iso_8859_8, iso_8859_9, iso_8859_10, iso_8859_11, iso_8859_13, iso_8859_14, iso_8859_15, iso_8859_16,
        koi8_r, koi8_u, mac_cyrillic, mac_roman, windows_1250, windows_1251, windows_1252, windows_1253,
        windows_1254, windows_1255, windows_1256, windows_1257, windows_1258, windows_874));
    v
}
