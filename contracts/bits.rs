// Generated by tools/genbits.py.  Bit operations as arithmetic; every lemma is proved.

pub broadcast proof fn bit_shr_u8_1(x: u8) ensures #[trigger] (x >> 1u8) == x / 2 { assert((x >> 1u8) == x / 2) by (bit_vector); }
pub broadcast proof fn bit_shr_u8_2(x: u8) ensures #[trigger] (x >> 2u8) == x / 4 { assert((x >> 2u8) == x / 4) by (bit_vector); }
pub broadcast proof fn bit_shr_u8_3(x: u8) ensures #[trigger] (x >> 3u8) == x / 8 { assert((x >> 3u8) == x / 8) by (bit_vector); }
pub broadcast proof fn bit_shr_u8_4(x: u8) ensures #[trigger] (x >> 4u8) == x / 16 { assert((x >> 4u8) == x / 16) by (bit_vector); }
pub broadcast proof fn bit_shr_u8_5(x: u8) ensures #[trigger] (x >> 5u8) == x / 32 { assert((x >> 5u8) == x / 32) by (bit_vector); }
pub broadcast proof fn bit_shr_u8_6(x: u8) ensures #[trigger] (x >> 6u8) == x / 64 { assert((x >> 6u8) == x / 64) by (bit_vector); }
pub broadcast proof fn bit_shl_u8_6(x: u8) requires x < 4 ensures #[trigger] (x << 6u8) == x * 64 { assert(x < 4 ==> (x << 6u8) == x * 64) by (bit_vector); }
pub broadcast proof fn bit_shr_u8_7(x: u8) ensures #[trigger] (x >> 7u8) == x / 128 { assert((x >> 7u8) == x / 128) by (bit_vector); }
pub broadcast proof fn bit_and_u8_7(x: u8) ensures #[trigger] (x & 0x7u8) == x % 8 { assert((x & 0x7u8) == x % 8) by (bit_vector); }
pub broadcast proof fn bit_and_u8_f(x: u8) ensures #[trigger] (x & 0xFu8) == x % 16 { assert((x & 0xFu8) == x % 16) by (bit_vector); }
pub broadcast proof fn bit_and_u8_1f(x: u8) ensures #[trigger] (x & 0x1Fu8) == x % 32 { assert((x & 0x1Fu8) == x % 32) by (bit_vector); }
pub broadcast proof fn bit_and_u8_3f(x: u8) ensures #[trigger] (x & 0x3Fu8) == x % 64 { assert((x & 0x3Fu8) == x % 64) by (bit_vector); }
pub broadcast proof fn bit_and_u8_7f(x: u8) ensures #[trigger] (x & 0x7Fu8) == x % 128 { assert((x & 0x7Fu8) == x % 128) by (bit_vector); }
pub broadcast proof fn bit_and_u8_80(x: u8) ensures #[trigger] (x & 0x80u8) == x - x % 128 { assert((x & 0x80u8) == x - x % 128) by (bit_vector); }
pub broadcast proof fn bit_and_u8_c0(x: u8) ensures #[trigger] (x & 0xC0u8) == x - x % 64 { assert((x & 0xC0u8) == x - x % 64) by (bit_vector); }
pub broadcast proof fn bit_and_u8_e0(x: u8) ensures #[trigger] (x & 0xE0u8) == x - x % 32 { assert((x & 0xE0u8) == x - x % 32) by (bit_vector); }
pub broadcast proof fn bit_and_u8_f0(x: u8) ensures #[trigger] (x & 0xF0u8) == x - x % 16 { assert((x & 0xF0u8) == x - x % 16) by (bit_vector); }
pub broadcast proof fn bit_and_u8_f8(x: u8) ensures #[trigger] (x & 0xF8u8) == x - x % 8 { assert((x & 0xF8u8) == x - x % 8) by (bit_vector); }
pub broadcast proof fn bit_join_u8(a: u8, b: u8) ensures #![trigger (a | b)]
    a % 32 == 0 && b < 32 ==> (a | b) == a + b,
    b % 32 == 0 && a < 32 ==> (a | b) == a + b,
    a % 64 == 0 && b < 64 ==> (a | b) == a + b,
    b % 64 == 0 && a < 64 ==> (a | b) == a + b,
    a % 128 == 0 && b < 128 ==> (a | b) == a + b,
    b % 128 == 0 && a < 128 ==> (a | b) == a + b
{ assert(a % 32 == 0 && b < 32 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 32 == 0 && a < 32 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 64 == 0 && b < 64 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 64 == 0 && a < 64 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 128 == 0 && b < 128 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 128 == 0 && a < 128 ==> (a | b) == a + b) by (bit_vector); }
pub broadcast proof fn bit_shr_u16_1(x: u16) ensures #[trigger] (x >> 1u16) == x / 2 { assert((x >> 1u16) == x / 2) by (bit_vector); }
pub broadcast proof fn bit_shr_u16_2(x: u16) ensures #[trigger] (x >> 2u16) == x / 4 { assert((x >> 2u16) == x / 4) by (bit_vector); }
pub broadcast proof fn bit_shr_u16_3(x: u16) ensures #[trigger] (x >> 3u16) == x / 8 { assert((x >> 3u16) == x / 8) by (bit_vector); }
pub broadcast proof fn bit_shr_u16_4(x: u16) ensures #[trigger] (x >> 4u16) == x / 16 { assert((x >> 4u16) == x / 16) by (bit_vector); }
pub broadcast proof fn bit_shr_u16_5(x: u16) ensures #[trigger] (x >> 5u16) == x / 32 { assert((x >> 5u16) == x / 32) by (bit_vector); }
pub broadcast proof fn bit_shr_u16_6(x: u16) ensures #[trigger] (x >> 6u16) == x / 64 { assert((x >> 6u16) == x / 64) by (bit_vector); }
pub broadcast proof fn bit_shl_u16_6(x: u16) requires x < 1024 ensures #[trigger] (x << 6u16) == x * 64 { assert(x < 1024 ==> (x << 6u16) == x * 64) by (bit_vector); }
pub broadcast proof fn bit_shr_u16_7(x: u16) ensures #[trigger] (x >> 7u16) == x / 128 { assert((x >> 7u16) == x / 128) by (bit_vector); }
pub broadcast proof fn bit_shr_u16_8(x: u16) ensures #[trigger] (x >> 8u16) == x / 256 { assert((x >> 8u16) == x / 256) by (bit_vector); }
pub broadcast proof fn bit_shl_u16_8(x: u16) requires x < 256 ensures #[trigger] (x << 8u16) == x * 256 { assert(x < 256 ==> (x << 8u16) == x * 256) by (bit_vector); }
pub broadcast proof fn bit_shr_u16_10(x: u16) ensures #[trigger] (x >> 10u16) == x / 1024 { assert((x >> 10u16) == x / 1024) by (bit_vector); }
pub broadcast proof fn bit_shl_u16_10(x: u16) requires x < 64 ensures #[trigger] (x << 10u16) == x * 1024 { assert(x < 64 ==> (x << 10u16) == x * 1024) by (bit_vector); }
pub broadcast proof fn bit_shr_u16_12(x: u16) ensures #[trigger] (x >> 12u16) == x / 4096 { assert((x >> 12u16) == x / 4096) by (bit_vector); }
pub broadcast proof fn bit_shl_u16_12(x: u16) requires x < 16 ensures #[trigger] (x << 12u16) == x * 4096 { assert(x < 16 ==> (x << 12u16) == x * 4096) by (bit_vector); }
pub broadcast proof fn bit_and_u16_7(x: u16) ensures #[trigger] (x & 0x7u16) == x % 8 { assert((x & 0x7u16) == x % 8) by (bit_vector); }
pub broadcast proof fn bit_and_u16_f(x: u16) ensures #[trigger] (x & 0xFu16) == x % 16 { assert((x & 0xFu16) == x % 16) by (bit_vector); }
pub broadcast proof fn bit_and_u16_1f(x: u16) ensures #[trigger] (x & 0x1Fu16) == x % 32 { assert((x & 0x1Fu16) == x % 32) by (bit_vector); }
pub broadcast proof fn bit_and_u16_3f(x: u16) ensures #[trigger] (x & 0x3Fu16) == x % 64 { assert((x & 0x3Fu16) == x % 64) by (bit_vector); }
pub broadcast proof fn bit_and_u16_7f(x: u16) ensures #[trigger] (x & 0x7Fu16) == x % 128 { assert((x & 0x7Fu16) == x % 128) by (bit_vector); }
pub broadcast proof fn bit_and_u16_ff(x: u16) ensures #[trigger] (x & 0xFFu16) == x % 256 { assert((x & 0xFFu16) == x % 256) by (bit_vector); }
pub broadcast proof fn bit_and_u16_3ff(x: u16) ensures #[trigger] (x & 0x3FFu16) == x % 1024 { assert((x & 0x3FFu16) == x % 1024) by (bit_vector); }
pub broadcast proof fn bit_and_u16_7ff(x: u16) ensures #[trigger] (x & 0x7FFu16) == x % 2048 { assert((x & 0x7FFu16) == x % 2048) by (bit_vector); }
pub broadcast proof fn bit_and_u16_fc00(x: u16) ensures #[trigger] (x & 0xFC00u16) == x - x % 1024 { assert((x & 0xFC00u16) == x - x % 1024) by (bit_vector); }
pub broadcast proof fn bit_and_u16_f800(x: u16) ensures #[trigger] (x & 0xF800u16) == x - x % 2048 { assert((x & 0xF800u16) == x - x % 2048) by (bit_vector); }
pub broadcast proof fn bit_and_u16_ff00(x: u16) ensures #[trigger] (x & 0xFF00u16) == x - x % 256 { assert((x & 0xFF00u16) == x - x % 256) by (bit_vector); }
pub broadcast proof fn bit_join_u16(a: u16, b: u16) ensures #![trigger (a | b)]
    a % 32 == 0 && b < 32 ==> (a | b) == a + b,
    b % 32 == 0 && a < 32 ==> (a | b) == a + b,
    a % 64 == 0 && b < 64 ==> (a | b) == a + b,
    b % 64 == 0 && a < 64 ==> (a | b) == a + b,
    a % 128 == 0 && b < 128 ==> (a | b) == a + b,
    b % 128 == 0 && a < 128 ==> (a | b) == a + b,
    a % 256 == 0 && b < 256 ==> (a | b) == a + b,
    b % 256 == 0 && a < 256 ==> (a | b) == a + b,
    a % 1024 == 0 && b < 1024 ==> (a | b) == a + b,
    b % 1024 == 0 && a < 1024 ==> (a | b) == a + b,
    a % 2048 == 0 && b < 2048 ==> (a | b) == a + b,
    b % 2048 == 0 && a < 2048 ==> (a | b) == a + b,
    a % 4096 == 0 && b < 4096 ==> (a | b) == a + b,
    b % 4096 == 0 && a < 4096 ==> (a | b) == a + b
{ assert(a % 32 == 0 && b < 32 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 32 == 0 && a < 32 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 64 == 0 && b < 64 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 64 == 0 && a < 64 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 128 == 0 && b < 128 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 128 == 0 && a < 128 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 256 == 0 && b < 256 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 256 == 0 && a < 256 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 1024 == 0 && b < 1024 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 1024 == 0 && a < 1024 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 2048 == 0 && b < 2048 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 2048 == 0 && a < 2048 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 4096 == 0 && b < 4096 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 4096 == 0 && a < 4096 ==> (a | b) == a + b) by (bit_vector); }
pub broadcast proof fn bit_shr_u32_1(x: u32) ensures #[trigger] (x >> 1u32) == x / 2 { assert((x >> 1u32) == x / 2) by (bit_vector); }
pub broadcast proof fn bit_shr_u32_2(x: u32) ensures #[trigger] (x >> 2u32) == x / 4 { assert((x >> 2u32) == x / 4) by (bit_vector); }
pub broadcast proof fn bit_shr_u32_3(x: u32) ensures #[trigger] (x >> 3u32) == x / 8 { assert((x >> 3u32) == x / 8) by (bit_vector); }
pub broadcast proof fn bit_shr_u32_4(x: u32) ensures #[trigger] (x >> 4u32) == x / 16 { assert((x >> 4u32) == x / 16) by (bit_vector); }
pub broadcast proof fn bit_shr_u32_5(x: u32) ensures #[trigger] (x >> 5u32) == x / 32 { assert((x >> 5u32) == x / 32) by (bit_vector); }
pub broadcast proof fn bit_shr_u32_6(x: u32) ensures #[trigger] (x >> 6u32) == x / 64 { assert((x >> 6u32) == x / 64) by (bit_vector); }
pub broadcast proof fn bit_shl_u32_6(x: u32) requires x < 67108864 ensures #[trigger] (x << 6u32) == x * 64 { assert(x < 67108864 ==> (x << 6u32) == x * 64) by (bit_vector); }
pub broadcast proof fn bit_shr_u32_7(x: u32) ensures #[trigger] (x >> 7u32) == x / 128 { assert((x >> 7u32) == x / 128) by (bit_vector); }
pub broadcast proof fn bit_shr_u32_8(x: u32) ensures #[trigger] (x >> 8u32) == x / 256 { assert((x >> 8u32) == x / 256) by (bit_vector); }
pub broadcast proof fn bit_shl_u32_8(x: u32) requires x < 16777216 ensures #[trigger] (x << 8u32) == x * 256 { assert(x < 16777216 ==> (x << 8u32) == x * 256) by (bit_vector); }
pub broadcast proof fn bit_shr_u32_10(x: u32) ensures #[trigger] (x >> 10u32) == x / 1024 { assert((x >> 10u32) == x / 1024) by (bit_vector); }
pub broadcast proof fn bit_shl_u32_10(x: u32) requires x < 4194304 ensures #[trigger] (x << 10u32) == x * 1024 { assert(x < 4194304 ==> (x << 10u32) == x * 1024) by (bit_vector); }
pub broadcast proof fn bit_shr_u32_12(x: u32) ensures #[trigger] (x >> 12u32) == x / 4096 { assert((x >> 12u32) == x / 4096) by (bit_vector); }
pub broadcast proof fn bit_shl_u32_12(x: u32) requires x < 1048576 ensures #[trigger] (x << 12u32) == x * 4096 { assert(x < 1048576 ==> (x << 12u32) == x * 4096) by (bit_vector); }
pub broadcast proof fn bit_shr_u32_16(x: u32) ensures #[trigger] (x >> 16u32) == x / 65536 { assert((x >> 16u32) == x / 65536) by (bit_vector); }
pub broadcast proof fn bit_shl_u32_16(x: u32) requires x < 65536 ensures #[trigger] (x << 16u32) == x * 65536 { assert(x < 65536 ==> (x << 16u32) == x * 65536) by (bit_vector); }
pub broadcast proof fn bit_shr_u32_18(x: u32) ensures #[trigger] (x >> 18u32) == x / 262144 { assert((x >> 18u32) == x / 262144) by (bit_vector); }
pub broadcast proof fn bit_shl_u32_18(x: u32) requires x < 16384 ensures #[trigger] (x << 18u32) == x * 262144 { assert(x < 16384 ==> (x << 18u32) == x * 262144) by (bit_vector); }
pub broadcast proof fn bit_shr_u32_24(x: u32) ensures #[trigger] (x >> 24u32) == x / 16777216 { assert((x >> 24u32) == x / 16777216) by (bit_vector); }
pub broadcast proof fn bit_shl_u32_24(x: u32) requires x < 256 ensures #[trigger] (x << 24u32) == x * 16777216 { assert(x < 256 ==> (x << 24u32) == x * 16777216) by (bit_vector); }
pub broadcast proof fn bit_and_u32_7(x: u32) ensures #[trigger] (x & 0x7u32) == x % 8 { assert((x & 0x7u32) == x % 8) by (bit_vector); }
pub broadcast proof fn bit_and_u32_f(x: u32) ensures #[trigger] (x & 0xFu32) == x % 16 { assert((x & 0xFu32) == x % 16) by (bit_vector); }
pub broadcast proof fn bit_and_u32_1f(x: u32) ensures #[trigger] (x & 0x1Fu32) == x % 32 { assert((x & 0x1Fu32) == x % 32) by (bit_vector); }
pub broadcast proof fn bit_and_u32_3f(x: u32) ensures #[trigger] (x & 0x3Fu32) == x % 64 { assert((x & 0x3Fu32) == x % 64) by (bit_vector); }
pub broadcast proof fn bit_and_u32_7f(x: u32) ensures #[trigger] (x & 0x7Fu32) == x % 128 { assert((x & 0x7Fu32) == x % 128) by (bit_vector); }
pub broadcast proof fn bit_and_u32_ff(x: u32) ensures #[trigger] (x & 0xFFu32) == x % 256 { assert((x & 0xFFu32) == x % 256) by (bit_vector); }
pub broadcast proof fn bit_and_u32_3ff(x: u32) ensures #[trigger] (x & 0x3FFu32) == x % 1024 { assert((x & 0x3FFu32) == x % 1024) by (bit_vector); }
pub broadcast proof fn bit_and_u32_7ff(x: u32) ensures #[trigger] (x & 0x7FFu32) == x % 2048 { assert((x & 0x7FFu32) == x % 2048) by (bit_vector); }
pub broadcast proof fn bit_and_u32_ffff(x: u32) ensures #[trigger] (x & 0xFFFFu32) == x % 65536 { assert((x & 0xFFFFu32) == x % 65536) by (bit_vector); }
pub broadcast proof fn bit_and_u32_fc00(x: u32) ensures #[trigger] (x & 0xFC00u32) == x % 65536 - x % 1024 { assert((x & 0xFC00u32) == x % 65536 - x % 1024) by (bit_vector); }
pub broadcast proof fn bit_and_u32_f800(x: u32) ensures #[trigger] (x & 0xF800u32) == x % 65536 - x % 2048 { assert((x & 0xF800u32) == x % 65536 - x % 2048) by (bit_vector); }
pub broadcast proof fn bit_and_u32_1ffc00(x: u32) ensures #[trigger] (x & 0x1FFC00u32) == x % 2097152 - x % 1024 { assert((x & 0x1FFC00u32) == x % 2097152 - x % 1024) by (bit_vector); }
pub broadcast proof fn bit_join_u32(a: u32, b: u32) ensures #![trigger (a | b)]
    a % 32 == 0 && b < 32 ==> (a | b) == a + b,
    b % 32 == 0 && a < 32 ==> (a | b) == a + b,
    a % 64 == 0 && b < 64 ==> (a | b) == a + b,
    b % 64 == 0 && a < 64 ==> (a | b) == a + b,
    a % 128 == 0 && b < 128 ==> (a | b) == a + b,
    b % 128 == 0 && a < 128 ==> (a | b) == a + b,
    a % 256 == 0 && b < 256 ==> (a | b) == a + b,
    b % 256 == 0 && a < 256 ==> (a | b) == a + b,
    a % 1024 == 0 && b < 1024 ==> (a | b) == a + b,
    b % 1024 == 0 && a < 1024 ==> (a | b) == a + b,
    a % 2048 == 0 && b < 2048 ==> (a | b) == a + b,
    b % 2048 == 0 && a < 2048 ==> (a | b) == a + b,
    a % 4096 == 0 && b < 4096 ==> (a | b) == a + b,
    b % 4096 == 0 && a < 4096 ==> (a | b) == a + b,
    a % 65536 == 0 && b < 65536 ==> (a | b) == a + b,
    b % 65536 == 0 && a < 65536 ==> (a | b) == a + b,
    a % 262144 == 0 && b < 262144 ==> (a | b) == a + b,
    b % 262144 == 0 && a < 262144 ==> (a | b) == a + b,
    a % 16777216 == 0 && b < 16777216 ==> (a | b) == a + b,
    b % 16777216 == 0 && a < 16777216 ==> (a | b) == a + b
{ assert(a % 32 == 0 && b < 32 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 32 == 0 && a < 32 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 64 == 0 && b < 64 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 64 == 0 && a < 64 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 128 == 0 && b < 128 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 128 == 0 && a < 128 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 256 == 0 && b < 256 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 256 == 0 && a < 256 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 1024 == 0 && b < 1024 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 1024 == 0 && a < 1024 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 2048 == 0 && b < 2048 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 2048 == 0 && a < 2048 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 4096 == 0 && b < 4096 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 4096 == 0 && a < 4096 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 65536 == 0 && b < 65536 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 65536 == 0 && a < 65536 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 262144 == 0 && b < 262144 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 262144 == 0 && a < 262144 ==> (a | b) == a + b) by (bit_vector);
  assert(a % 16777216 == 0 && b < 16777216 ==> (a | b) == a + b) by (bit_vector);
  assert(b % 16777216 == 0 && a < 16777216 ==> (a | b) == a + b) by (bit_vector); }
pub broadcast proof fn bit_trunc_u32_u16(x: u32) ensures #[trigger] (x as u16) == x % 65536 { assert((x as u16) == x % 65536) by (bit_vector); }
pub broadcast proof fn bit_trunc_u32_u8(x: u32) ensures #[trigger] (x as u8) == x % 256 { assert((x as u8) == x % 256) by (bit_vector); }
pub broadcast proof fn bit_trunc_u16_u8(x: u16) ensures #[trigger] (x as u8) == x % 256 { assert((x as u8) == x % 256) by (bit_vector); }
pub broadcast proof fn bit_trunc_u64_u32(x: u64) ensures #[trigger] (x as u32) == x % 4294967296 { assert((x as u32) == x % 4294967296) by (bit_vector); }
pub broadcast proof fn bit_trunc_u64_u8(x: u64) ensures #[trigger] (x as u8) == x % 256 { assert((x as u8) == x % 256) by (bit_vector); }
pub broadcast proof fn bit_trunc_usize_u32(x: usize) ensures #[trigger] (x as u32) == x % 4294967296 { assert((x as u64 as u32) == (x as u64) % 4294967296) by (bit_vector); }
pub broadcast proof fn bit_trunc_usize_u16(x: usize) ensures #[trigger] (x as u16) == x % 65536 { assert((x as u64 as u16) == (x as u64) % 65536) by (bit_vector); }
pub broadcast proof fn bit_trunc_usize_u8(x: usize) ensures #[trigger] (x as u8) == x % 256 { assert((x as u64 as u8) == (x as u64) % 256) by (bit_vector); }
pub broadcast group bit_lemmas {
    bit_shr_u8_1, bit_shr_u8_2, bit_shr_u8_3, bit_shr_u8_4, bit_shr_u8_5, bit_shr_u8_6, bit_shl_u8_6, bit_shr_u8_7, bit_and_u8_7, bit_and_u8_f, bit_and_u8_1f, bit_and_u8_3f, bit_and_u8_7f, bit_and_u8_80, bit_and_u8_c0, bit_and_u8_e0, bit_and_u8_f0, bit_and_u8_f8, bit_join_u8, bit_shr_u16_1, bit_shr_u16_2, bit_shr_u16_3, bit_shr_u16_4, bit_shr_u16_5, bit_shr_u16_6, bit_shl_u16_6, bit_shr_u16_7, bit_shr_u16_8, bit_shl_u16_8, bit_shr_u16_10, bit_shl_u16_10, bit_shr_u16_12, bit_shl_u16_12, bit_and_u16_7, bit_and_u16_f, bit_and_u16_1f, bit_and_u16_3f, bit_and_u16_7f, bit_and_u16_ff, bit_and_u16_3ff, bit_and_u16_7ff, bit_and_u16_fc00, bit_and_u16_f800, bit_and_u16_ff00, bit_join_u16, bit_shr_u32_1, bit_shr_u32_2, bit_shr_u32_3, bit_shr_u32_4, bit_shr_u32_5, bit_shr_u32_6, bit_shl_u32_6, bit_shr_u32_7, bit_shr_u32_8, bit_shl_u32_8, bit_shr_u32_10, bit_shl_u32_10, bit_shr_u32_12, bit_shl_u32_12, bit_shr_u32_16, bit_shl_u32_16, bit_shr_u32_18, bit_shl_u32_18, bit_shr_u32_24, bit_shl_u32_24, bit_and_u32_7, bit_and_u32_f, bit_and_u32_1f, bit_and_u32_3f, bit_and_u32_7f, bit_and_u32_ff, bit_and_u32_3ff, bit_and_u32_7ff, bit_and_u32_ffff, bit_and_u32_fc00, bit_and_u32_f800, bit_and_u32_1ffc00, bit_join_u32, bit_trunc_u32_u16, bit_trunc_u32_u8, bit_trunc_u16_u8, bit_trunc_u64_u32, bit_trunc_u64_u8, bit_trunc_usize_u32, bit_trunc_usize_u16, bit_trunc_usize_u8,
}
