// bit operations on u8 / usize as arithmetic, each proved by bit-blasting
pub proof fn lemma_bits()
    ensures
        forall|x: u8| #[trigger] (x & 1u8) == ((x / 1u8) % 2u8) * 1u8,
        forall|x: u8| #[trigger] (x & 3u8) == ((x / 1u8) % 4u8) * 1u8,
        forall|x: u8| #[trigger] (x & 7u8) == ((x / 1u8) % 8u8) * 1u8,
        forall|x: u8| #[trigger] (x & 15u8) == ((x / 1u8) % 16u8) * 1u8,
        forall|x: u8| #[trigger] (x & 31u8) == ((x / 1u8) % 32u8) * 1u8,
        forall|x: u8| #[trigger] (x & 63u8) == ((x / 1u8) % 64u8) * 1u8,
        forall|x: u8| #[trigger] (x & 127u8) == ((x / 1u8) % 128u8) * 1u8,
        forall|x: u8| #[trigger] (x & 2u8) == ((x / 2u8) % 2u8) * 2u8,
        forall|x: u8| #[trigger] (x & 6u8) == ((x / 2u8) % 4u8) * 2u8,
        forall|x: u8| #[trigger] (x & 14u8) == ((x / 2u8) % 8u8) * 2u8,
        forall|x: u8| #[trigger] (x & 30u8) == ((x / 2u8) % 16u8) * 2u8,
        forall|x: u8| #[trigger] (x & 62u8) == ((x / 2u8) % 32u8) * 2u8,
        forall|x: u8| #[trigger] (x & 126u8) == ((x / 2u8) % 64u8) * 2u8,
        forall|x: u8| #[trigger] (x & 254u8) == ((x / 2u8) % 128u8) * 2u8,
        forall|x: u8| #[trigger] (x & 4u8) == ((x / 4u8) % 2u8) * 4u8,
        forall|x: u8| #[trigger] (x & 12u8) == ((x / 4u8) % 4u8) * 4u8,
        forall|x: u8| #[trigger] (x & 28u8) == ((x / 4u8) % 8u8) * 4u8,
        forall|x: u8| #[trigger] (x & 60u8) == ((x / 4u8) % 16u8) * 4u8,
        forall|x: u8| #[trigger] (x & 124u8) == ((x / 4u8) % 32u8) * 4u8,
        forall|x: u8| #[trigger] (x & 252u8) == ((x / 4u8) % 64u8) * 4u8,
        forall|x: u8| #[trigger] (x & 8u8) == ((x / 8u8) % 2u8) * 8u8,
        forall|x: u8| #[trigger] (x & 24u8) == ((x / 8u8) % 4u8) * 8u8,
        forall|x: u8| #[trigger] (x & 56u8) == ((x / 8u8) % 8u8) * 8u8,
        forall|x: u8| #[trigger] (x & 120u8) == ((x / 8u8) % 16u8) * 8u8,
        forall|x: u8| #[trigger] (x & 248u8) == ((x / 8u8) % 32u8) * 8u8,
        forall|x: u8| #[trigger] (x & 16u8) == ((x / 16u8) % 2u8) * 16u8,
        forall|x: u8| #[trigger] (x & 48u8) == ((x / 16u8) % 4u8) * 16u8,
        forall|x: u8| #[trigger] (x & 112u8) == ((x / 16u8) % 8u8) * 16u8,
        forall|x: u8| #[trigger] (x & 240u8) == ((x / 16u8) % 16u8) * 16u8,
        forall|x: u8| #[trigger] (x & 32u8) == ((x / 32u8) % 2u8) * 32u8,
        forall|x: u8| #[trigger] (x & 96u8) == ((x / 32u8) % 4u8) * 32u8,
        forall|x: u8| #[trigger] (x & 224u8) == ((x / 32u8) % 8u8) * 32u8,
        forall|x: u8| #[trigger] (x & 64u8) == ((x / 64u8) % 2u8) * 64u8,
        forall|x: u8| #[trigger] (x & 192u8) == ((x / 64u8) % 4u8) * 64u8,
        forall|x: u8| #[trigger] (x & 128u8) == ((x / 128u8) % 2u8) * 128u8,
        forall|x: u8| #[trigger] (x >> 1u8) == x / 2u8,
        forall|x: u8| x < 128 ==> #[trigger] (x << 1u8) == x * 2u8,
        forall|x: u8| #[trigger] (x >> 2u8) == x / 4u8,
        forall|x: u8| x < 64 ==> #[trigger] (x << 2u8) == x * 4u8,
        forall|x: u8| #[trigger] (x >> 3u8) == x / 8u8,
        forall|x: u8| x < 32 ==> #[trigger] (x << 3u8) == x * 8u8,
        forall|x: u8| #[trigger] (x >> 4u8) == x / 16u8,
        forall|x: u8| x < 16 ==> #[trigger] (x << 4u8) == x * 16u8,
        forall|x: u8| #[trigger] (x >> 5u8) == x / 32u8,
        forall|x: u8| x < 8 ==> #[trigger] (x << 5u8) == x * 32u8,
        forall|x: u8| #[trigger] (x >> 6u8) == x / 64u8,
        forall|x: u8| x < 4 ==> #[trigger] (x << 6u8) == x * 64u8,
        forall|x: u8| #[trigger] (x >> 7u8) == x / 128u8,
        forall|x: u8| x < 2 ==> #[trigger] (x << 7u8) == x * 128u8,
        forall|x: usize| #[trigger] (x & 127usize) == x % 128usize,
        forall|x: usize| #[trigger] (x >> 7usize) == x / 128usize,
        forall|x: usize| x < 128 ==> #[trigger] (x | 128usize) == x + 128usize,
        forall|x: u8| x < 128 ==> #[trigger] (x | 128u8) == x + 128u8,
        forall|x: u8, a: u8| a <= 1 && x % 2u8 == 0 ==> #[trigger] (x | a) == x + a,
        forall|x: u8, b: u8| b < 2 && (x / 2u8) % 2u8 == 0 ==> #[trigger] (x | (b << 1u8)) == x + b * 2u8,
        forall|x: u8, b: u8| b < 4 && (x / 2u8) % 4u8 == 0 ==> #[trigger] (x | (b << 1u8)) == x + b * 2u8,
        forall|x: u8, b: u8| b < 2 && (x / 4u8) % 2u8 == 0 ==> #[trigger] (x | (b << 2u8)) == x + b * 4u8,
        forall|x: u8, b: u8| b < 2 && (x / 8u8) % 2u8 == 0 ==> #[trigger] (x | (b << 3u8)) == x + b * 8u8,
        forall|x: u8, b: u8| b < 4 && (x / 8u8) % 4u8 == 0 ==> #[trigger] (x | (b << 3u8)) == x + b * 8u8,
        forall|x: u8, b: u8| b < 16 && (x / 16u8) % 16u8 == 0 ==> #[trigger] (x | (b << 4u8)) == x + b * 16u8,
        forall|x: u8, b: u8| b < 2 && (x / 32u8) % 2u8 == 0 ==> #[trigger] (x | (b << 5u8)) == x + b * 32u8,
        forall|x: u8, b: u8| b < 2 && (x / 64u8) % 2u8 == 0 ==> #[trigger] (x | (b << 6u8)) == x + b * 64u8,
        forall|x: u8, b: u8| b < 2 && (x / 128u8) % 2u8 == 0 ==> #[trigger] (x | (b << 7u8)) == x + b * 128u8,
{
    assert(forall|x: u8| #[trigger] (x & 1u8) == ((x / 1u8) % 2u8) * 1u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 3u8) == ((x / 1u8) % 4u8) * 1u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 7u8) == ((x / 1u8) % 8u8) * 1u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 15u8) == ((x / 1u8) % 16u8) * 1u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 31u8) == ((x / 1u8) % 32u8) * 1u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 63u8) == ((x / 1u8) % 64u8) * 1u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 127u8) == ((x / 1u8) % 128u8) * 1u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 2u8) == ((x / 2u8) % 2u8) * 2u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 6u8) == ((x / 2u8) % 4u8) * 2u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 14u8) == ((x / 2u8) % 8u8) * 2u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 30u8) == ((x / 2u8) % 16u8) * 2u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 62u8) == ((x / 2u8) % 32u8) * 2u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 126u8) == ((x / 2u8) % 64u8) * 2u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 254u8) == ((x / 2u8) % 128u8) * 2u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 4u8) == ((x / 4u8) % 2u8) * 4u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 12u8) == ((x / 4u8) % 4u8) * 4u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 28u8) == ((x / 4u8) % 8u8) * 4u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 60u8) == ((x / 4u8) % 16u8) * 4u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 124u8) == ((x / 4u8) % 32u8) * 4u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 252u8) == ((x / 4u8) % 64u8) * 4u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 8u8) == ((x / 8u8) % 2u8) * 8u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 24u8) == ((x / 8u8) % 4u8) * 8u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 56u8) == ((x / 8u8) % 8u8) * 8u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 120u8) == ((x / 8u8) % 16u8) * 8u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 248u8) == ((x / 8u8) % 32u8) * 8u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 16u8) == ((x / 16u8) % 2u8) * 16u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 48u8) == ((x / 16u8) % 4u8) * 16u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 112u8) == ((x / 16u8) % 8u8) * 16u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 240u8) == ((x / 16u8) % 16u8) * 16u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 32u8) == ((x / 32u8) % 2u8) * 32u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 96u8) == ((x / 32u8) % 4u8) * 32u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 224u8) == ((x / 32u8) % 8u8) * 32u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 64u8) == ((x / 64u8) % 2u8) * 64u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 192u8) == ((x / 64u8) % 4u8) * 64u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x & 128u8) == ((x / 128u8) % 2u8) * 128u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x >> 1u8) == x / 2u8) by (bit_vector);
    assert(forall|x: u8| x < 128 ==> #[trigger] (x << 1u8) == x * 2u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x >> 2u8) == x / 4u8) by (bit_vector);
    assert(forall|x: u8| x < 64 ==> #[trigger] (x << 2u8) == x * 4u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x >> 3u8) == x / 8u8) by (bit_vector);
    assert(forall|x: u8| x < 32 ==> #[trigger] (x << 3u8) == x * 8u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x >> 4u8) == x / 16u8) by (bit_vector);
    assert(forall|x: u8| x < 16 ==> #[trigger] (x << 4u8) == x * 16u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x >> 5u8) == x / 32u8) by (bit_vector);
    assert(forall|x: u8| x < 8 ==> #[trigger] (x << 5u8) == x * 32u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x >> 6u8) == x / 64u8) by (bit_vector);
    assert(forall|x: u8| x < 4 ==> #[trigger] (x << 6u8) == x * 64u8) by (bit_vector);
    assert(forall|x: u8| #[trigger] (x >> 7u8) == x / 128u8) by (bit_vector);
    assert(forall|x: u8| x < 2 ==> #[trigger] (x << 7u8) == x * 128u8) by (bit_vector);
    assert(forall|x: usize| #[trigger] (x & 127usize) == x % 128usize) by (bit_vector);
    assert(forall|x: usize| #[trigger] (x >> 7usize) == x / 128usize) by (bit_vector);
    assert(forall|x: usize| x < 128 ==> #[trigger] (x | 128usize) == x + 128usize) by (bit_vector);
    assert(forall|x: u8| x < 128 ==> #[trigger] (x | 128u8) == x + 128u8) by (bit_vector);
    assert(forall|x: u8, a: u8| a <= 1 && x % 2u8 == 0 ==> #[trigger] (x | a) == x + a) by (bit_vector);
    assert(forall|x: u8, b: u8| b < 2 && (x / 2u8) % 2u8 == 0 ==> #[trigger] (x | (b << 1u8)) == x + b * 2u8) by (bit_vector);
    assert(forall|x: u8, b: u8| b < 4 && (x / 2u8) % 4u8 == 0 ==> #[trigger] (x | (b << 1u8)) == x + b * 2u8) by (bit_vector);
    assert(forall|x: u8, b: u8| b < 2 && (x / 4u8) % 2u8 == 0 ==> #[trigger] (x | (b << 2u8)) == x + b * 4u8) by (bit_vector);
    assert(forall|x: u8, b: u8| b < 2 && (x / 8u8) % 2u8 == 0 ==> #[trigger] (x | (b << 3u8)) == x + b * 8u8) by (bit_vector);
    assert(forall|x: u8, b: u8| b < 4 && (x / 8u8) % 4u8 == 0 ==> #[trigger] (x | (b << 3u8)) == x + b * 8u8) by (bit_vector);
    assert(forall|x: u8, b: u8| b < 16 && (x / 16u8) % 16u8 == 0 ==> #[trigger] (x | (b << 4u8)) == x + b * 16u8) by (bit_vector);
    assert(forall|x: u8, b: u8| b < 2 && (x / 32u8) % 2u8 == 0 ==> #[trigger] (x | (b << 5u8)) == x + b * 32u8) by (bit_vector);
    assert(forall|x: u8, b: u8| b < 2 && (x / 64u8) % 2u8 == 0 ==> #[trigger] (x | (b << 6u8)) == x + b * 64u8) by (bit_vector);
    assert(forall|x: u8, b: u8| b < 2 && (x / 128u8) % 2u8 == 0 ==> #[trigger] (x | (b << 7u8)) == x + b * 128u8) by (bit_vector);
}
