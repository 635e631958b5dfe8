  { "rle8_multi_compress", rle8_multi_compress, rle8_decompress, rle_compress_bounds, 1, 0, FAM_X },
  { "rle8_multi_short_compress", rle8_multi_short_compress, rle8_multi_short_decompress, rle_compress_bounds, 1, 0, FAM_SHORT },
  { "rle8_packed_multi_compress", rle8_packed_multi_compress, rle8_packed_decompress, rle_compress_bounds, 1, 0, FAM_X },
  { "rle8_1symlut_short_compress", rle8_1symlut_short_compress, rle8_1symlut_short_decompress, rle_compress_bounds, 1, 0, FAM_SHORT },
  { "rle8_3symlut_compress", rle8_3symlut_compress, rle8_3symlut_decompress, rle_compress_bounds, 1, 0, FAM_LUT },
  { "rle8_3symlut_short_compress", rle8_3symlut_short_compress, rle8_3symlut_short_decompress, rle_compress_bounds, 1, 0, FAM_SHORT },
  { "rle8_7symlut_compress", rle8_7symlut_compress, rle8_7symlut_decompress, rle_compress_bounds, 1, 0, FAM_LUT },
  { "rle8_7symlut_short_compress", rle8_7symlut_short_compress, rle8_7symlut_short_decompress, rle_compress_bounds, 1, 0, FAM_SHORT },
  { "rle8_single_compress", rle8_single_compress, rle8_decompress, rle_compress_bounds, 1, 0, FAM_X },
  { "rle8_single_short_compress", rle8_single_short_compress, rle8_single_short_decompress, rle_compress_bounds, 1, 0, FAM_SHORT },
  { "rle8_packed_single_compress", rle8_packed_single_compress, rle8_packed_decompress, rle_compress_bounds, 1, 0, FAM_X },
  { "rle16_sym_compress", rle16_sym_compress, rle16_sym_decompress, rle_compress_bounds, 2, 1, FAM_X },
  { "rle16_sym_short_compress", rle16_sym_short_compress, rle16_sym_short_decompress, rle_compress_bounds, 2, 1, FAM_SHORT },
  { "rle16_sym_packed_compress", rle16_sym_packed_compress, rle16_sym_packed_decompress, rle_compress_bounds, 2, 1, FAM_X },
  { "rle16_1symlut_sym_short_compress", rle16_1symlut_sym_short_compress, rle16_1symlut_sym_short_decompress, rle_compress_bounds, 2, 1, FAM_SHORT },
  { "rle16_3symlut_sym_compress", rle16_3symlut_sym_compress, rle16_3symlut_sym_decompress, rle_compress_bounds, 2, 1, FAM_LUT },
  { "rle16_3symlut_sym_short_compress", rle16_3symlut_sym_short_compress, rle16_3symlut_sym_short_decompress, rle_compress_bounds, 2, 1, FAM_SHORT },
  { "rle16_7symlut_sym_compress", rle16_7symlut_sym_compress, rle16_7symlut_sym_decompress, rle_compress_bounds, 2, 1, FAM_LUT },
  { "rle16_7symlut_sym_short_compress", rle16_7symlut_sym_short_compress, rle16_7symlut_sym_short_decompress, rle_compress_bounds, 2, 1, FAM_SHORT },
  { "rle16_byte_compress", rle16_byte_compress, rle16_byte_decompress, rle_compress_bounds, 2, 0, FAM_X },
  { "rle16_byte_short_compress", rle16_byte_short_compress, rle16_byte_short_decompress, rle_compress_bounds, 2, 0, FAM_SHORT },
  { "rle16_byte_packed_compress", rle16_byte_packed_compress, rle16_byte_packed_decompress, rle_compress_bounds, 2, 0, FAM_X },
  { "rle16_1symlut_byte_short_compress", rle16_1symlut_byte_short_compress, rle16_1symlut_byte_short_decompress, rle_compress_bounds, 2, 0, FAM_SHORT },
  { "rle16_1symlut_byte_short_compress_greedy", rle16_1symlut_byte_short_compress_greedy, rle16_1symlut_byte_short_decompress, rle_compress_bounds, 2, 0, FAM_SHORT },
  { "rle16_3symlut_byte_compress", rle16_3symlut_byte_compress, rle16_3symlut_byte_decompress, rle_compress_bounds, 2, 0, FAM_LUT },
  { "rle16_3symlut_byte_short_compress", rle16_3symlut_byte_short_compress, rle16_3symlut_byte_short_decompress, rle_compress_bounds, 2, 0, FAM_SHORT },
  { "rle16_3symlut_byte_short_compress_greedy", rle16_3symlut_byte_short_compress_greedy, rle16_3symlut_byte_short_decompress, rle_compress_bounds, 2, 0, FAM_SHORT },
  { "rle16_7symlut_byte_compress", rle16_7symlut_byte_compress, rle16_7symlut_byte_decompress, rle_compress_bounds, 2, 0, FAM_LUT },
  { "rle16_7symlut_byte_short_compress", rle16_7symlut_byte_short_compress, rle16_7symlut_byte_short_decompress, rle_compress_bounds, 2, 0, FAM_SHORT },
  { "rle16_7symlut_byte_short_compress_greedy", rle16_7symlut_byte_short_compress_greedy, rle16_7symlut_byte_short_decompress, rle_compress_bounds, 2, 0, FAM_SHORT },
  { "rle24_sym_compress", rle24_sym_compress, rle24_sym_decompress, rle_compress_bounds, 3, 1, FAM_X },
  { "rle24_sym_short_compress", rle24_sym_short_compress, rle24_sym_short_decompress, rle_compress_bounds, 3, 1, FAM_SHORT },
  { "rle24_sym_packed_compress", rle24_sym_packed_compress, rle24_sym_packed_decompress, rle_compress_bounds, 3, 1, FAM_X },
  { "rle24_1symlut_sym_short_compress", rle24_1symlut_sym_short_compress, rle24_1symlut_sym_short_decompress, rle_compress_bounds, 3, 1, FAM_SHORT },
  { "rle24_3symlut_sym_compress", rle24_3symlut_sym_compress, rle24_3symlut_sym_decompress, rle_compress_bounds, 3, 1, FAM_LUT },
  { "rle24_3symlut_sym_short_compress", rle24_3symlut_sym_short_compress, rle24_3symlut_sym_short_decompress, rle_compress_bounds, 3, 1, FAM_SHORT },
  { "rle24_7symlut_sym_compress", rle24_7symlut_sym_compress, rle24_7symlut_sym_decompress, rle_compress_bounds, 3, 1, FAM_LUT },
  { "rle24_7symlut_sym_short_compress", rle24_7symlut_sym_short_compress, rle24_7symlut_sym_short_decompress, rle_compress_bounds, 3, 1, FAM_SHORT },
  { "rle24_byte_compress", rle24_byte_compress, rle24_byte_decompress, rle_compress_bounds, 3, 0, FAM_X },
  { "rle24_byte_short_compress", rle24_byte_short_compress, rle24_byte_short_decompress, rle_compress_bounds, 3, 0, FAM_SHORT },
  { "rle24_byte_packed_compress", rle24_byte_packed_compress, rle24_byte_packed_decompress, rle_compress_bounds, 3, 0, FAM_X },
  { "rle24_1symlut_byte_short_compress", rle24_1symlut_byte_short_compress, rle24_1symlut_byte_short_decompress, rle_compress_bounds, 3, 0, FAM_SHORT },
  { "rle24_1symlut_byte_short_compress_greedy", rle24_1symlut_byte_short_compress_greedy, rle24_1symlut_byte_short_decompress, rle_compress_bounds, 3, 0, FAM_SHORT },
  { "rle24_3symlut_byte_compress", rle24_3symlut_byte_compress, rle24_3symlut_byte_decompress, rle_compress_bounds, 3, 0, FAM_LUT },
  { "rle24_3symlut_byte_short_compress", rle24_3symlut_byte_short_compress, rle24_3symlut_byte_short_decompress, rle_compress_bounds, 3, 0, FAM_SHORT },
  { "rle24_3symlut_byte_short_compress_greedy", rle24_3symlut_byte_short_compress_greedy, rle24_3symlut_byte_short_decompress, rle_compress_bounds, 3, 0, FAM_SHORT },
  { "rle24_7symlut_byte_compress", rle24_7symlut_byte_compress, rle24_7symlut_byte_decompress, rle_compress_bounds, 3, 0, FAM_LUT },
  { "rle24_7symlut_byte_short_compress", rle24_7symlut_byte_short_compress, rle24_7symlut_byte_short_decompress, rle_compress_bounds, 3, 0, FAM_SHORT },
  { "rle24_7symlut_byte_short_compress_greedy", rle24_7symlut_byte_short_compress_greedy, rle24_7symlut_byte_short_decompress, rle_compress_bounds, 3, 0, FAM_SHORT },
  { "rle32_sym_compress", rle32_sym_compress, rle32_sym_decompress, rle_compress_bounds, 4, 1, FAM_X },
  { "rle32_sym_short_compress", rle32_sym_short_compress, rle32_sym_short_decompress, rle_compress_bounds, 4, 1, FAM_SHORT },
  { "rle32_sym_packed_compress", rle32_sym_packed_compress, rle32_sym_packed_decompress, rle_compress_bounds, 4, 1, FAM_X },
  { "rle32_1symlut_sym_short_compress", rle32_1symlut_sym_short_compress, rle32_1symlut_sym_short_decompress, rle_compress_bounds, 4, 1, FAM_SHORT },
  { "rle32_3symlut_sym_compress", rle32_3symlut_sym_compress, rle32_3symlut_sym_decompress, rle_compress_bounds, 4, 1, FAM_LUT },
  { "rle32_3symlut_sym_short_compress", rle32_3symlut_sym_short_compress, rle32_3symlut_sym_short_decompress, rle_compress_bounds, 4, 1, FAM_SHORT },
  { "rle32_7symlut_sym_compress", rle32_7symlut_sym_compress, rle32_7symlut_sym_decompress, rle_compress_bounds, 4, 1, FAM_LUT },
  { "rle32_7symlut_sym_short_compress", rle32_7symlut_sym_short_compress, rle32_7symlut_sym_short_decompress, rle_compress_bounds, 4, 1, FAM_SHORT },
  { "rle32_byte_compress", rle32_byte_compress, rle32_byte_decompress, rle_compress_bounds, 4, 0, FAM_X },
  { "rle32_byte_short_compress", rle32_byte_short_compress, rle32_byte_short_decompress, rle_compress_bounds, 4, 0, FAM_SHORT },
  { "rle32_byte_packed_compress", rle32_byte_packed_compress, rle32_byte_packed_decompress, rle_compress_bounds, 4, 0, FAM_X },
  { "rle32_1symlut_byte_short_compress", rle32_1symlut_byte_short_compress, rle32_1symlut_byte_short_decompress, rle_compress_bounds, 4, 0, FAM_SHORT },
  { "rle32_1symlut_byte_short_compress_greedy", rle32_1symlut_byte_short_compress_greedy, rle32_1symlut_byte_short_decompress, rle_compress_bounds, 4, 0, FAM_SHORT },
  { "rle32_3symlut_byte_compress", rle32_3symlut_byte_compress, rle32_3symlut_byte_decompress, rle_compress_bounds, 4, 0, FAM_LUT },
  { "rle32_3symlut_byte_short_compress", rle32_3symlut_byte_short_compress, rle32_3symlut_byte_short_decompress, rle_compress_bounds, 4, 0, FAM_SHORT },
  { "rle32_3symlut_byte_short_compress_greedy", rle32_3symlut_byte_short_compress_greedy, rle32_3symlut_byte_short_decompress, rle_compress_bounds, 4, 0, FAM_SHORT },
  { "rle32_7symlut_byte_compress", rle32_7symlut_byte_compress, rle32_7symlut_byte_decompress, rle_compress_bounds, 4, 0, FAM_LUT },
  { "rle32_7symlut_byte_short_compress", rle32_7symlut_byte_short_compress, rle32_7symlut_byte_short_decompress, rle_compress_bounds, 4, 0, FAM_SHORT },
  { "rle32_7symlut_byte_short_compress_greedy", rle32_7symlut_byte_short_compress_greedy, rle32_7symlut_byte_short_decompress, rle_compress_bounds, 4, 0, FAM_SHORT },
  { "rle48_sym_compress", rle48_sym_compress, rle48_sym_decompress, rle_compress_bounds, 6, 1, FAM_X },
  { "rle48_sym_short_compress", rle48_sym_short_compress, rle48_sym_short_decompress, rle_compress_bounds, 6, 1, FAM_SHORT },
  { "rle48_sym_packed_compress", rle48_sym_packed_compress, rle48_sym_packed_decompress, rle_compress_bounds, 6, 1, FAM_X },
  { "rle48_1symlut_sym_short_compress", rle48_1symlut_sym_short_compress, rle48_1symlut_sym_short_decompress, rle_compress_bounds, 6, 1, FAM_SHORT },
  { "rle48_3symlut_sym_compress", rle48_3symlut_sym_compress, rle48_3symlut_sym_decompress, rle_compress_bounds, 6, 1, FAM_LUT },
  { "rle48_3symlut_sym_short_compress", rle48_3symlut_sym_short_compress, rle48_3symlut_sym_short_decompress, rle_compress_bounds, 6, 1, FAM_SHORT },
  { "rle48_7symlut_sym_compress", rle48_7symlut_sym_compress, rle48_7symlut_sym_decompress, rle_compress_bounds, 6, 1, FAM_LUT },
  { "rle48_7symlut_sym_short_compress", rle48_7symlut_sym_short_compress, rle48_7symlut_sym_short_decompress, rle_compress_bounds, 6, 1, FAM_SHORT },
  { "rle48_byte_compress", rle48_byte_compress, rle48_byte_decompress, rle_compress_bounds, 6, 0, FAM_X },
  { "rle48_byte_short_compress", rle48_byte_short_compress, rle48_byte_short_decompress, rle_compress_bounds, 6, 0, FAM_SHORT },
  { "rle48_byte_packed_compress", rle48_byte_packed_compress, rle48_byte_packed_decompress, rle_compress_bounds, 6, 0, FAM_X },
  { "rle48_1symlut_byte_short_compress", rle48_1symlut_byte_short_compress, rle48_1symlut_byte_short_decompress, rle_compress_bounds, 6, 0, FAM_SHORT },
  { "rle48_1symlut_byte_short_compress_greedy", rle48_1symlut_byte_short_compress_greedy, rle48_1symlut_byte_short_decompress, rle_compress_bounds, 6, 0, FAM_SHORT },
  { "rle48_3symlut_byte_compress", rle48_3symlut_byte_compress, rle48_3symlut_byte_decompress, rle_compress_bounds, 6, 0, FAM_LUT },
  { "rle48_3symlut_byte_short_compress", rle48_3symlut_byte_short_compress, rle48_3symlut_byte_short_decompress, rle_compress_bounds, 6, 0, FAM_SHORT },
  { "rle48_3symlut_byte_short_compress_greedy", rle48_3symlut_byte_short_compress_greedy, rle48_3symlut_byte_short_decompress, rle_compress_bounds, 6, 0, FAM_SHORT },
  { "rle48_7symlut_byte_compress", rle48_7symlut_byte_compress, rle48_7symlut_byte_decompress, rle_compress_bounds, 6, 0, FAM_LUT },
  { "rle48_7symlut_byte_short_compress", rle48_7symlut_byte_short_compress, rle48_7symlut_byte_short_decompress, rle_compress_bounds, 6, 0, FAM_SHORT },
  { "rle48_7symlut_byte_short_compress_greedy", rle48_7symlut_byte_short_compress_greedy, rle48_7symlut_byte_short_decompress, rle_compress_bounds, 6, 0, FAM_SHORT },
  { "rle64_sym_compress", rle64_sym_compress, rle64_sym_decompress, rle_compress_bounds, 8, 1, FAM_X },
  { "rle64_sym_short_compress", rle64_sym_short_compress, rle64_sym_short_decompress, rle_compress_bounds, 8, 1, FAM_SHORT },
  { "rle64_sym_packed_compress", rle64_sym_packed_compress, rle64_sym_packed_decompress, rle_compress_bounds, 8, 1, FAM_X },
  { "rle64_1symlut_sym_short_compress", rle64_1symlut_sym_short_compress, rle64_1symlut_sym_short_decompress, rle_compress_bounds, 8, 1, FAM_SHORT },
  { "rle64_3symlut_sym_compress", rle64_3symlut_sym_compress, rle64_3symlut_sym_decompress, rle_compress_bounds, 8, 1, FAM_LUT },
  { "rle64_3symlut_sym_short_compress", rle64_3symlut_sym_short_compress, rle64_3symlut_sym_short_decompress, rle_compress_bounds, 8, 1, FAM_SHORT },
  { "rle64_7symlut_sym_compress", rle64_7symlut_sym_compress, rle64_7symlut_sym_decompress, rle_compress_bounds, 8, 1, FAM_LUT },
  { "rle64_7symlut_sym_short_compress", rle64_7symlut_sym_short_compress, rle64_7symlut_sym_short_decompress, rle_compress_bounds, 8, 1, FAM_SHORT },
  { "rle64_byte_compress", rle64_byte_compress, rle64_byte_decompress, rle_compress_bounds, 8, 0, FAM_X },
  { "rle64_byte_short_compress", rle64_byte_short_compress, rle64_byte_short_decompress, rle_compress_bounds, 8, 0, FAM_SHORT },
  { "rle64_byte_packed_compress", rle64_byte_packed_compress, rle64_byte_packed_decompress, rle_compress_bounds, 8, 0, FAM_X },
  { "rle64_1symlut_byte_short_compress", rle64_1symlut_byte_short_compress, rle64_1symlut_byte_short_decompress, rle_compress_bounds, 8, 0, FAM_SHORT },
  { "rle64_1symlut_byte_short_compress_greedy", rle64_1symlut_byte_short_compress_greedy, rle64_1symlut_byte_short_decompress, rle_compress_bounds, 8, 0, FAM_SHORT },
  { "rle64_3symlut_byte_compress", rle64_3symlut_byte_compress, rle64_3symlut_byte_decompress, rle_compress_bounds, 8, 0, FAM_LUT },
  { "rle64_3symlut_byte_short_compress", rle64_3symlut_byte_short_compress, rle64_3symlut_byte_short_decompress, rle_compress_bounds, 8, 0, FAM_SHORT },
  { "rle64_3symlut_byte_short_compress_greedy", rle64_3symlut_byte_short_compress_greedy, rle64_3symlut_byte_short_decompress, rle_compress_bounds, 8, 0, FAM_SHORT },
  { "rle64_7symlut_byte_compress", rle64_7symlut_byte_compress, rle64_7symlut_byte_decompress, rle_compress_bounds, 8, 0, FAM_LUT },
  { "rle64_7symlut_byte_short_compress", rle64_7symlut_byte_short_compress, rle64_7symlut_byte_short_decompress, rle_compress_bounds, 8, 0, FAM_SHORT },
  { "rle64_7symlut_byte_short_compress_greedy", rle64_7symlut_byte_short_compress_greedy, rle64_7symlut_byte_short_decompress, rle_compress_bounds, 8, 0, FAM_SHORT },
  { "rle128_sym_compress", rle128_sym_compress, rle128_sym_decompress, rle_compress_bounds, 16, 1, FAM_X },
  { "rle128_sym_packed_compress", rle128_sym_packed_compress, rle128_sym_packed_decompress, rle_compress_bounds, 16, 1, FAM_X },
  { "rle128_byte_compress", rle128_byte_compress, rle128_byte_decompress, rle_compress_bounds, 16, 0, FAM_X },
  { "rle128_byte_packed_compress", rle128_byte_packed_compress, rle128_byte_packed_decompress, rle_compress_bounds, 16, 0, FAM_X },
  { "rle8_sh_compress", rle8_sh_compress, rle8_sh_decompress, rle8_sh_bounds, 1, 0, FAM_SH },
  { "rle8_mmtf128_compress", rle8_mmtf128_compress, rle8_mmtf128_decompress, rle8_mmtf128_compress_bounds, 1, 0, FAM_RLEMMTF },
  { "rle8_low_entropy_compress", rle8_low_entropy_compress, rle8_low_entropy_decompress, rle8_low_entropy_compress_bounds, 1, 0, FAM_LE },
  { "rle8_low_entropy_compress_only_max_frequency", rle8_low_entropy_compress_only_max_frequency, rle8_low_entropy_decompress, rle8_low_entropy_compress_bounds, 1, 0, FAM_LE },
  { "rle8_low_entropy_short_compress", rle8_low_entropy_short_compress, rle8_low_entropy_short_decompress, rle8_low_entropy_short_compress_bounds, 1, 0, FAM_LE },
  { "rle8_low_entropy_short_compress_only_max_frequency", rle8_low_entropy_short_compress_only_max_frequency, rle8_low_entropy_short_decompress, rle8_low_entropy_short_compress_bounds, 1, 0, FAM_LE },
  { "mmtf128_encode", mmtf128_encode, mmtf128_decode, mmtf_bounds, 1, 0, FAM_MMTF },
  { "mmtf256_encode", mmtf256_encode, mmtf256_decode, mmtf_bounds, 1, 0, FAM_MMTF },
  { "bitmmtf8_encode", bitmmtf8_encode, bitmmtf8_decode, bitmmtf_bounds, 1, 0, FAM_BITMMTF },
  { "bitmmtf16_encode", bitmmtf16_encode, bitmmtf16_decode, bitmmtf_bounds, 1, 0, FAM_BITMMTF },
