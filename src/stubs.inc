uint32_t stub__rle8_multi_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(0, i, n, o, m); }
uint32_t stub__rle8_multi_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(1, i, n, o, m); }
uint32_t stub__rle8_packed_multi_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(2, i, n, o, m); }
uint32_t stub__rle8_1symlut_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(3, i, n, o, m); }
uint32_t stub__rle8_3symlut_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(4, i, n, o, m); }
uint32_t stub__rle8_3symlut_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(5, i, n, o, m); }
uint32_t stub__rle8_7symlut_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(6, i, n, o, m); }
uint32_t stub__rle8_7symlut_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(7, i, n, o, m); }
uint32_t stub__rle8_single_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(8, i, n, o, m); }
uint32_t stub__rle8_single_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(9, i, n, o, m); }
uint32_t stub__rle8_packed_single_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(10, i, n, o, m); }
uint32_t stub__rle16_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(11, i, n, o, m); }
uint32_t stub__rle16_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(12, i, n, o, m); }
uint32_t stub__rle16_sym_packed_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(13, i, n, o, m); }
uint32_t stub__rle16_1symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(14, i, n, o, m); }
uint32_t stub__rle16_3symlut_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(15, i, n, o, m); }
uint32_t stub__rle16_3symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(16, i, n, o, m); }
uint32_t stub__rle16_7symlut_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(17, i, n, o, m); }
uint32_t stub__rle16_7symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(18, i, n, o, m); }
uint32_t stub__rle16_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(19, i, n, o, m); }
uint32_t stub__rle16_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(20, i, n, o, m); }
uint32_t stub__rle16_byte_packed_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(21, i, n, o, m); }
uint32_t stub__rle16_1symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(22, i, n, o, m); }
uint32_t stub__rle16_1symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(23, i, n, o, m); }
uint32_t stub__rle16_3symlut_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(24, i, n, o, m); }
uint32_t stub__rle16_3symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(25, i, n, o, m); }
uint32_t stub__rle16_3symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(26, i, n, o, m); }
uint32_t stub__rle16_7symlut_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(27, i, n, o, m); }
uint32_t stub__rle16_7symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(28, i, n, o, m); }
uint32_t stub__rle16_7symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(29, i, n, o, m); }
uint32_t stub__rle24_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(30, i, n, o, m); }
uint32_t stub__rle24_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(31, i, n, o, m); }
uint32_t stub__rle24_sym_packed_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(32, i, n, o, m); }
uint32_t stub__rle24_1symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(33, i, n, o, m); }
uint32_t stub__rle24_3symlut_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(34, i, n, o, m); }
uint32_t stub__rle24_3symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(35, i, n, o, m); }
uint32_t stub__rle24_7symlut_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(36, i, n, o, m); }
uint32_t stub__rle24_7symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(37, i, n, o, m); }
uint32_t stub__rle24_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(38, i, n, o, m); }
uint32_t stub__rle24_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(39, i, n, o, m); }
uint32_t stub__rle24_byte_packed_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(40, i, n, o, m); }
uint32_t stub__rle24_1symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(41, i, n, o, m); }
uint32_t stub__rle24_1symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(42, i, n, o, m); }
uint32_t stub__rle24_3symlut_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(43, i, n, o, m); }
uint32_t stub__rle24_3symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(44, i, n, o, m); }
uint32_t stub__rle24_3symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(45, i, n, o, m); }
uint32_t stub__rle24_7symlut_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(46, i, n, o, m); }
uint32_t stub__rle24_7symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(47, i, n, o, m); }
uint32_t stub__rle24_7symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(48, i, n, o, m); }
uint32_t stub__rle32_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(49, i, n, o, m); }
uint32_t stub__rle32_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(50, i, n, o, m); }
uint32_t stub__rle32_sym_packed_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(51, i, n, o, m); }
uint32_t stub__rle32_1symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(52, i, n, o, m); }
uint32_t stub__rle32_3symlut_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(53, i, n, o, m); }
uint32_t stub__rle32_3symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(54, i, n, o, m); }
uint32_t stub__rle32_7symlut_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(55, i, n, o, m); }
uint32_t stub__rle32_7symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(56, i, n, o, m); }
uint32_t stub__rle32_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(57, i, n, o, m); }
uint32_t stub__rle32_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(58, i, n, o, m); }
uint32_t stub__rle32_byte_packed_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(59, i, n, o, m); }
uint32_t stub__rle32_1symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(60, i, n, o, m); }
uint32_t stub__rle32_1symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(61, i, n, o, m); }
uint32_t stub__rle32_3symlut_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(62, i, n, o, m); }
uint32_t stub__rle32_3symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(63, i, n, o, m); }
uint32_t stub__rle32_3symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(64, i, n, o, m); }
uint32_t stub__rle32_7symlut_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(65, i, n, o, m); }
uint32_t stub__rle32_7symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(66, i, n, o, m); }
uint32_t stub__rle32_7symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(67, i, n, o, m); }
uint32_t stub__rle48_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(68, i, n, o, m); }
uint32_t stub__rle48_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(69, i, n, o, m); }
uint32_t stub__rle48_sym_packed_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(70, i, n, o, m); }
uint32_t stub__rle48_1symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(71, i, n, o, m); }
uint32_t stub__rle48_3symlut_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(72, i, n, o, m); }
uint32_t stub__rle48_3symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(73, i, n, o, m); }
uint32_t stub__rle48_7symlut_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(74, i, n, o, m); }
uint32_t stub__rle48_7symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(75, i, n, o, m); }
uint32_t stub__rle48_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(76, i, n, o, m); }
uint32_t stub__rle48_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(77, i, n, o, m); }
uint32_t stub__rle48_byte_packed_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(78, i, n, o, m); }
uint32_t stub__rle48_1symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(79, i, n, o, m); }
uint32_t stub__rle48_1symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(80, i, n, o, m); }
uint32_t stub__rle48_3symlut_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(81, i, n, o, m); }
uint32_t stub__rle48_3symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(82, i, n, o, m); }
uint32_t stub__rle48_3symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(83, i, n, o, m); }
uint32_t stub__rle48_7symlut_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(84, i, n, o, m); }
uint32_t stub__rle48_7symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(85, i, n, o, m); }
uint32_t stub__rle48_7symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(86, i, n, o, m); }
uint32_t stub__rle64_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(87, i, n, o, m); }
uint32_t stub__rle64_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(88, i, n, o, m); }
uint32_t stub__rle64_sym_packed_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(89, i, n, o, m); }
uint32_t stub__rle64_1symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(90, i, n, o, m); }
uint32_t stub__rle64_3symlut_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(91, i, n, o, m); }
uint32_t stub__rle64_3symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(92, i, n, o, m); }
uint32_t stub__rle64_7symlut_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(93, i, n, o, m); }
uint32_t stub__rle64_7symlut_sym_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(94, i, n, o, m); }
uint32_t stub__rle64_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(95, i, n, o, m); }
uint32_t stub__rle64_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(96, i, n, o, m); }
uint32_t stub__rle64_byte_packed_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(97, i, n, o, m); }
uint32_t stub__rle64_1symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(98, i, n, o, m); }
uint32_t stub__rle64_1symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(99, i, n, o, m); }
uint32_t stub__rle64_3symlut_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(100, i, n, o, m); }
uint32_t stub__rle64_3symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(101, i, n, o, m); }
uint32_t stub__rle64_3symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(102, i, n, o, m); }
uint32_t stub__rle64_7symlut_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(103, i, n, o, m); }
uint32_t stub__rle64_7symlut_byte_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(104, i, n, o, m); }
uint32_t stub__rle64_7symlut_byte_short_compress_greedy(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(105, i, n, o, m); }
uint32_t stub__rle128_sym_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(106, i, n, o, m); }
uint32_t stub__rle128_sym_packed_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(107, i, n, o, m); }
uint32_t stub__rle128_byte_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(108, i, n, o, m); }
uint32_t stub__rle128_byte_packed_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(109, i, n, o, m); }
uint32_t stub__rle8_sh_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(110, i, n, o, m); }
uint32_t stub__rle8_mmtf128_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(111, i, n, o, m); }
uint32_t stub__rle8_low_entropy_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(112, i, n, o, m); }
uint32_t stub__rle8_low_entropy_compress_only_max_frequency(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(113, i, n, o, m); }
uint32_t stub__rle8_low_entropy_short_compress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(114, i, n, o, m); }
uint32_t stub__rle8_low_entropy_short_compress_only_max_frequency(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(115, i, n, o, m); }
uint32_t stub__mmtf128_encode(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(116, i, n, o, m); }
uint32_t stub__mmtf256_encode(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(117, i, n, o, m); }
uint32_t stub__bitmmtf8_encode(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(118, i, n, o, m); }
uint32_t stub__bitmmtf16_encode(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(119, i, n, o, m); }
uint32_t stub__bitmmtf16_decode(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__bitmmtf8_decode(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__mmtf128_decode(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__mmtf256_decode(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle128_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle128_byte_packed_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle128_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle128_sym_packed_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_1symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_1symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_3symlut_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_3symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_3symlut_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_3symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_7symlut_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_7symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_7symlut_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_7symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_byte_packed_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_sym_packed_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle16_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_1symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_1symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_3symlut_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_3symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_3symlut_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_3symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_7symlut_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_7symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_7symlut_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_7symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_byte_packed_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_sym_packed_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle24_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_1symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_1symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_3symlut_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_3symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_3symlut_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_3symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_7symlut_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_7symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_7symlut_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_7symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_byte_packed_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_sym_packed_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle32_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_1symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_1symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_3symlut_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_3symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_3symlut_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_3symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_7symlut_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_7symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_7symlut_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_7symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_byte_packed_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_sym_packed_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle48_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_1symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_1symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_3symlut_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_3symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_3symlut_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_3symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_7symlut_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_7symlut_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_7symlut_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_7symlut_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_byte_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_byte_packed_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_byte_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_sym_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_sym_packed_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle64_sym_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle8_1symlut_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle8_3symlut_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle8_3symlut_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle8_7symlut_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle8_7symlut_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle8_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle8_low_entropy_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle8_low_entropy_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle8_mmtf128_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle8_multi_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle8_packed_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle8_sh_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
uint32_t stub__rle8_single_short_decompress(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }
