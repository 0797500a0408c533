//! The stream of calls (src/stream.rs) with the real functions.
//! stream NAME,NAME... quick|thorough DICT     (DICT as for the engine)
use text_encoding::*;

mod xlat { include!("../stream.rs"); }
use xlat::R;

fn e(r: EncodeResult) -> R { match r { Ok((b, n)) => R::Enc(b.as_ptr() as usize, b.len(), n), Err(x) => R::ErrE(x.character as u32, x.error_range.0, x.error_range.1, x.output_bytes_written) } }
fn d(r: DecodeResult) -> R { match r { Ok((b, n)) => R::Enc(b.as_ptr() as usize, b.len(), n), Err(x) => R::ErrD(match x.cause { DecodeErrorCause::InvalidData => true, _ => false }, x.error_range.0, x.error_range.1, x.output_bytes_written) } }

type Row = (&'static str, xlat::EFn, xlat::DFn);
macro_rules! ed {
    (@f $n:expr, $($m:ident)::+) => { ($n, (|i, o, _| e($($m)::+::encode_from_str(i, o))) as xlat::EFn, (|i, o, x| d($($m)::+::decode_to_str(i, o, x))) as xlat::DFn) };
    (@g $n:expr, $($m:ident)::+) => { ($n, (|i, o, x| e($($m)::+::encode_from_str(i, o, x))) as xlat::EFn, (|i, o, x| d($($m)::+::decode_to_str(i, o, x))) as xlat::DFn) };
    (@s $n:expr, $($m:ident)::+) => { ($n, (|i, o, _| e($($m)::+::encode_from_str(i, o))) as xlat::EFn, (|i, o, _| d($($m)::+::decode_to_str(i, o))) as xlat::DFn) };
}
macro_rules! sb { ($($m:ident),*) => { vec![$(ed!(@s concat!("single_byte__", stringify!($m)), single_byte::$m)),*] } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut v: Vec<Row> = vec![
        ed!(@f "utf8", utf8), ed!(@f "utf16_le", utf16_le), ed!(@f "utf16_be", utf16_be), ed!(@f "utf32_le", utf32_le), ed!(@f "utf32_be", utf32_be),
        ed!(@g "big5_whatwg", big5_whatwg), ed!(@f "shiftjis_whatwg", shiftjis_whatwg)];
    v.extend(sb!(ascii, ibm_866, iso_8859_1, iso_8859_2, iso_8859_3, iso_8859_4, iso_8859_5, iso_8859_6, iso_8859_7,
        iso_8859_8, iso_8859_9, iso_8859_10, iso_8859_11, iso_8859_13, iso_8859_14, iso_8859_15, iso_8859_16,
        koi8_r, koi8_u, mac_cyrillic, mac_roman, windows_1250, windows_1251, windows_1252, windows_1253,
        windows_1254, windows_1255, windows_1256, windows_1257, windows_1258, windows_874));
    let want: Vec<&str> = a[1].split(',').collect();
    let quick = a[2] == "quick";
    for (n, ef, df) in v {
        let dict: Vec<u64> = a[3].split(';').filter_map(|p| p.split_once(':')).filter(|p| p.0 == n).flat_map(|p| p.1.split(',').filter_map(|x| x.parse().ok())).collect();
        let (en, dn) = (format!("{}__encode_from_str", n), format!("{}__decode_to_str", n));
        if want.contains(&en.as_str()) { xlat::enc(&en, ef, &dict, quick); }
        if want.contains(&dn.as_str()) { xlat::dec(&dn, df, &dict, quick); }
    }
}
