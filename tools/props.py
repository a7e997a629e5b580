PROPS = []
NA = []


def P(id, title, statement, forall, why, files, mech, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, forall=forall,
                      why=why, files=files, mech=mech, note=note, **kw))


def N(id, title, statement, forall, why, files, mech, reason, **kw):
    NA.append(dict(id=id, title=title, statement=statement, forall=forall,
                   why=why, files=files, mech=mech, reason=reason, **kw))


P('C01', 'Fixed-width integers and floats keep their value in every byte order',
  'Reading or writing an 8*n-bit integer, float or double in big-endian, '
  'little-endian or host order - from unaligned memory, from a byte stream or '
  'at the end of a string buffer - uses exactly the n bytes in the order the '
  'name says, so that a read gives back what was written with the same order. '
  'Nothing outside those n bytes is read or written, and a read from a stream '
  'that holds fewer than n bytes fails and leaves the stream as it was.',
  'every value of 16, 24, 32, 48, 64 and 128 bits, every bit pattern of a '
  'float or double, every alignment, every stream length',
  'The tests read a handful of constants; the widths 24, 48 and 128, short '
  'streams and most alignments are never exercised.',
  ['src/arith/endianess.h', 'src/arith/float.h', 'src/arith/str.h'],
  [('get/put_unaligned_*, cpu_to_*/..._to_cpu', 'src/arith/endianess.h'),
   ('float/double bits', 'src/arith/float.h'),
   ('ps_get_*, sb_add_*', 'src/arith/str.h')],
  'Every accessor is under contract and proved for all values and positions; '
  'trusted: compiler byte-swap built-ins, memcpy, allocator model.')

P('C02', 'Bit streams and bit buffers behave as sequences of bits',
  'A bit stream is a window on a bit sequence: reading, peeking, skipping, '
  'clipping, shrinking, splitting, scanning or comparing, from either end and '
  'in either bit order, yields exactly the bits of the window, moves its '
  'bounds by exactly what was asked, and fails without moving it when the '
  'bits are not there. A bit buffer is a growing bit sequence: appending '
  'bits, bytes, runs of 0s or 1s or another stream at any bit offset leaves '
  'all earlier bits as they were and appends exactly the new ones, whether or '
  'not it reallocates, and shifting left drops exactly the first bits. '
  'Neither ever touches memory outside the sequence.',
  'all contents, all offsets and lengths, all buffer sizes',
  'Tests sample a few offsets and lengths; word-boundary, empty and full '
  'cases (where the defects repaired here were) are not reached.',
  ['src/bit-buf.h', 'src/core/bit-buf.c', 'src/bit-stream.h',
   'src/core/bithacks.c'],
  [('bb_*', 'src/bit-buf.h'), ('bs_*', 'src/bit-stream.h')],
  'Readers, window operations, bit appends and growth are proved for any '
  'size up to 4096 words through a symbolic bit index; word loops that '
  'reallocate (shift, byte/stream append, scans) are bounded checks on drawn '
  'inputs within 3 words, labelled bounded.')

P('C03', 'String buffers are growing NUL-terminated byte sequences',
  'Every sb_t operation - append, prepend, splice, skip, clip, shrink, trim, '
  'reset, grow, detach, rewind - turns the current bytes into exactly the '
  'ones its name says, whether the buffer is empty, on the stack, on the heap '
  'or must be reallocated, and never changes the bytes it is not asked to '
  'change. After each of them the length is exact, a NUL follows the last '
  'byte inside the block, and the buffer can be used again. No operation '
  'reads or writes outside the block.',
  'every buffer shape and content, every length, skip and position',
  'Tests use short literals on fresh buffers; reallocation with a skipped '
  'head, splices that consume the head and stack-to-heap moves depend on '
  'sizes they do not sample.',
  ['src/core/str-buf.h', 'src/core/str-buf.c'],
  [('sb_add*, __sb_grow, __sb_optimize, __sb_splice', 'src/core/str-buf.c'),
   ('sb_skip, sb_clip, sb_shrink, sb_trim', 'src/core/str-buf.h')],
  'Appends, growth, splices, clipping and detaching are proved for blocks up '
  'to 70000 bytes (8000 for splices) with a symbolic byte index; prepend and '
  'splice wrappers, trims and operation histories are bounded drawn checks.')

P('C04', 'Byte streams are windows: parsing primitives take exactly what they name',
  'Skipping, clipping, shrinking, extracting, comparing, searching (first or '
  'last character, word, class of characters), trimming, tokenising, copying '
  'or splitting a pstream_t yields exactly the bytes the name says, moves the '
  'bounds to exactly that place, and leaves the stream unchanged when it '
  'fails. Splitting and CSV reading give exactly the fields of the text '
  '(separators, quotes and escapes as documented). No primitive reads outside '
  'the window, even when it is empty or the word is longer than it.',
  'all contents and lengths, all words, all character classes',
  'Tests use a few literals, never an exact-size window, so over-reads and '
  'rare classes are not seen.',
  ['src/core/str-stream.h', 'src/core/str-stream.c', 'src/core/str-ctype.h',
   'src/core/str-ctype.c'],
  [('ps_*', 'src/core/str-stream.h'),
   ('ps_copyv, ps_split, ps_split_escaped, ps_get_csv_line',
    'src/core/str-stream.c')],
  'The primitives are proved for windows up to 10^6 bytes with a symbolic '
  'index and loop contracts; ps_copyv, splits and CSV lines are bounded '
  'drawn checks (14 bytes).')

P('C05', 'UTF-8 text is coded, checked and converted exactly',
  'Every character up to 0x1fffff encodes to the 1 to 4 bytes UTF-8 defines '
  'and decodes back to itself; decoding reads only the given bytes and '
  'rejects a stray, truncated or unfinished sequence without advancing. '
  'Counting, skipping, case mapping, collation and prefix comparison, and '
  'conversion from and to latin-1, latin-9, UCS-2 and their hexadecimal '
  'forms process exactly the characters of the string, and a failed '
  'conversion leaves the output buffer as it was.',
  'all code points, all byte strings (valid or not), all buffers',
  'Tests convert a few literals; truncated last characters, empty strings and '
  'characters on the table limits are not there.',
  ['src/core/str-conv.c', 'src/core/str-conv.h', 'src/core/str-buf.c'],
  [('utf8_*, __pstrputuc', 'src/core/str-conv.h'),
   ('sb_conv_*, sb_add_utf8_*', 'src/core/str-conv.c')],
  'Coding, decoding, skipping and the case tables are proved for all inputs; '
  'the whole-string conversions and the collation are bounded checks on drawn '
  'strings within 24 bytes.')

P('C06', 'HPACK integers and Huffman strings round-trip as RFC 7541 says',
  'Every 32-bit integer is coded with any prefix size as RFC 7541 section 5.1 '
  'says, and decoding accepts exactly the well-formed codes of at most 8 '
  'bytes, gives the coded value, and never reads past the input. Huffman '
  'coding any byte string gives the code of the RFC padded with ones in the '
  'announced length, and decoding accepts exactly the valid codes and gives '
  'back the bytes, never more than 8/5 of the input.',
  'all integers, all prefixes, all byte strings',
  'The tests hold the RFC examples; truncated or overlong integers, invalid '
  'padding and most symbols pairs are never tried.',
  ['src/net/hpack.c', 'src/net/hpack-priv.h',
   'src/net/hpack-generate-huffman-tables.py'],
  [('hpack_encode_int, hpack_decode_int', 'src/net/hpack.c'),
   ('hpack_encode_huffman, hpack_decode_huffman', 'src/net/hpack.c')],
  'Integers and the code table are proved for all inputs; Huffman strings are '
  'bounded checks on drawn strings within 20 bytes against a bit-by-bit '
  'decoder.')

P('C07', 'HPACK header tables stay in step and headers survive the trip',
  'For every history of headers and table-size updates, the decoder gives '
  'back the headers the encoder was given, both dynamic tables hold the same '
  'entries with the size RFC 7541 defines and never above their limit, the '
  'oldest entries are the ones evicted, and a lookup finds the most recent '
  'matching entry. A decoder fed with any bytes fails or produces a header '
  'line that fits the announced size, without touching memory outside the '
  'input, the output and the entries still in the table.',
  'all header histories, all table sizes, all inputs from a peer',
  'Faults need several insertions, evictions and reuses in a given order, or '
  'a hostile peer; tests replay the RFC examples.',
  ['src/net/hpack.c', 'src/net/http.c', 'src/container/ring.c'],
  [('hpack_encoder_*, hpack_decoder_*, *_dtbl_*', 'src/net/hpack.c'),
   ('header blocks', 'src/net/http.c')],
  'Extraction and writing of one header are proved memory safe and exact in '
  'size for any bytes and table (Huffman decoding by an assumed contract); '
  'histories of tables are bounded checks against a model of the RFC.')

P('C08', 'Vectors are growing sequences whatever the element size and the storage',
  'Every vector operation - grow, append, insert, push, pop, remove, skip, '
  'splice, extend, copy, optimise, clear - turns the current elements into '
  'exactly the ones its name says, keeps the others byte for byte whether or '
  'not it reallocates or leaves a caller-provided block, and keeps room for '
  'what was asked. Difference, intersection, deep copy and shuffle give '
  'exactly the elements they are defined by. No operation touches memory '
  'outside the block.',
  'every vector length, capacity, element size and storage, every position '
  'and count, every history of operations',
  'Tests use small vectors of one type; growth out of static storage, '
  'constant-length splices and shrinking depend on sizes they do not sample.',
  ['src/container-qvector.h', 'src/container/qvector.blk'],
  [('qvector_grow, qvector_splice, qvector_optimize, qv_*',
    'src/container-qvector.h'),
   ('__qvector_*', 'src/container/qvector.blk')],
  'Growth, optimisation, reset and splices are proved with a symbolic byte '
  'for vectors up to 20000 elements of 12 bytes or 1 byte (255 for splices); '
  'operation histories and block-based functions are bounded drawn checks.')

P('C09', 'Sorting, duplicate removal and binary search agree on the order',
  'Sorting an integer array of any width and sign gives its elements in '
  'increasing order, duplicate removal on a sorted array keeps the first of '
  'each in that same order (and deletes each other element once), and binary '
  'search finds a value iff it is there, otherwise giving the place where it '
  'keeps the array sorted. The comparator-based versions agree for any total '
  'order.',
  'all array lengths and contents, all element types, all orders',
  'Tests sort a few arrays of 32-bit values; 8-bit signed values, extreme '
  'values and equal bytes in a radix pass are not sampled.',
  ['src/core/sort.blk', 'src/core/sort-numeric.in.c',
   'src/core/sort-numeric.in.h', 'src/sort.h'],
  [('bisect*, contains*', 'src/core/sort-numeric.in.h'),
   ('dsort*, uniq*', 'src/core/sort-numeric.in.c'),
   ('uniq, bisect, contains', 'src/core/sort.blk')],
  'The nine binary searches and contains are proved for every length up to '
  '65536 with loop contracts; radix sorts and uniq are bounded drawn checks '
  'against qsort (300 elements).')

P('C10', 'Linked lists keep their elements in order through every operation',
  'Adding, removing, moving, splicing and cutting doubly linked lists, and '
  'adding, popping, splicing and moving head-tail lists, put exactly the '
  'named elements at the named place, leave every other element of every list '
  'where it was, and keep both directions consistent. This includes empty and '
  'one-element lists and an element moved within its own list. Iteration '
  'yields each element once, in order.',
  'all lists, all elements, all histories of operations',
  'Aliasing cases (empty list, last element, element already first) depend on '
  'the list shape; tests build a few shapes.',
  ['src/container-dlist.h', 'src/container-htlist.h'],
  [('dlist_*', 'src/container-dlist.h'), ('htlist_*', 'src/container-htlist.h')],
  'Each operation is proved on all sets of cyclic lists over 6 nodes, which '
  'covers any list since it touches at most 5 nodes; iteration macros and '
  'histories are bounded drawn checks.')

P('C11', 'Rings are double-ended queues and heaps are priority queues',
  'A ring keeps its elements in order through push, unshift, pop, shift, '
  'skip, filter and growth at any rotation, and fails exactly when the '
  'elements are not there. A heap always yields a smallest (or largest) '
  'element among those inserted and not removed, holds exactly those, and '
  'keeps every node told of its position, also after a removal or a change of '
  'key in the middle.',
  'all lengths, capacities and rotations, all histories of operations',
  'The wrapped and full cases need a particular sequence of operations; the '
  'tests push and shift a few elements.',
  ['src/container-ring.h', 'src/container/ring.c', 'src/container-qheap.h'],
  [('RING_FUNCTIONS, RING_FILTER', 'src/container-ring.h'),
   ('generic_ring_ensure', 'src/container/ring.c'),
   ('qhp_*', 'src/container-qheap.h')],
  'Ring operations and growth are proved for any rotation of rings up to 4000 '
  'elements; filters, iterations and heaps are bounded drawn histories.')

P('C12', 'Output buffers write what was added, in order, whatever the writes do',
  'The bytes an output buffer hands to the writer are exactly the bytes added '
  'to it - copied, referenced, mapped or merged from another buffer - in '
  'order, each once, for every sequence of partial, full or failed writes. '
  'Its length is always the number of bytes still to be written and a failed '
  'write consumes nothing.',
  'all sequences of additions, merges and partial writes, any chunk sizes',
  'A fault needs a partial write that ends at a particular place of a '
  'particular mix of chunks; tests write everything at once.',
  ['src/str-outbuf.h', 'src/core/str-outbuf.c'],
  [('ob_add*', 'src/str-outbuf.h'),
   ('ob_merge, ob_write_with, ob_consume', 'src/core/str-outbuf.c')],
  'Consumption across a chunk is proved for all sizes (sb_skip by its C03 '
  'contract); merges, writes and histories are bounded drawn checks against a '
  'byte-sequence model.', over=['inputs', 'histories'])

P('C13', 'Quoting, escaping and binary-to-text codings are exact and reversible',
  'Hexadecimal, base64 (both alphabets, any line width, any piecewise '
  'feeding), URL, XML, backslash and quoted-printable codings yield what their '
  'format says for every byte string, and decoding what was encoded gives the '
  'bytes back. A decoder given anything else fails without changing the '
  'buffer, or decodes it as documented, and never reads outside its input. '
  'Environment expansion replaces each reference by its value, CSV fields are '
  'quoted when they must be, and punycode and domain names agree with RFC '
  '3492 and RFC 3490.',
  'all byte strings, all ways to cut them in pieces, all line widths',
  'Faults need a particular byte at a particular distance from the end or '
  'from a line break; tests code a few strings.',
  ['src/core/str-conv.c', 'src/core/str-buf-quoting.c',
   'src/core/str-conv.h'],
  [('sb_add_b64*, sb_add_unb64*', 'src/core/str-buf-quoting.c'),
   ('sb_add_urlencode, sb_urldecode, sb_add_qpe, sb_add_unqpe, sb_add_slashes, '
    'sb_add_xmlescape, sb_add_punycode_vec', 'src/core/str-buf-quoting.c'),
   ('strconv_hexdecode, strconv_hexencode', 'src/core/str-conv.c')],
  'The digit tables of every coding are proved; the codings themselves are '
  'bounded drawn contract checks against independent definitions (up to 260 '
  'bytes), and so is the round trip.', level='other')

P('C14', 'Numbers in text are read to the value written, or refused',
  'Reading a decimal integer, an integer with a unit suffix, or a decimal '
  'number from a string of given length yields exactly the value written, the '
  'place where it ends and errno; a number that does not fit, a stray suffix '
  'or an empty field is reported as documented. Nothing is read past the end '
  'given.',
  'all byte strings of all lengths',
  'Overflow and end-of-input errors need values at the limit of the type or a '
  'string that stops at a particular place; tests parse short literals.',
  ['src/core/str-num.c', 'src/core/str.c', 'src/core/str-num.h',
   'src/core/str-conv.c'],
  [('memtoip, memtollp, memtoullp', 'src/core/str-num.c'),
   ('memtoll_ext, memtoull_ext, strtoll_ext', 'src/core/str-num.c'),
   ('parse_number, strtolp', 'src/core/str-num.c')],
  'memtoip and memtollp are proved for strings of any length with loop '
  'contracts, and the unit extensions for every value; the strtoll-based '
  'readers are bounded drawn checks.')

P('C15', 'Formatted output is the one C defines, and its extensions',
  'The library printf family yields, for every standard conversion of '
  'integers, characters, strings, pointers and finite floating-point numbers, '
  'with every flag, width, precision and length modifier, the text and length '
  'the C standard defines, cut at the size of the buffer. Its own conversions '
  '(memory in hexadecimal, byte strings, 128-bit integers, thousands '
  'separators) print every digit and nothing else.',
  'all values, all combinations of flags, width, precision, modifier and '
  'buffer size',
  'Combinations number in the millions; tests print a few dozen.',
  ['src/core/str-iprintf.c', 'src/core/str-dtoa.c', 'src/core/str-iprintf.h'],
  [('fmt_output', 'src/core/str-iprintf.c'),
   ('convert_uint, convert_ulong, convert_uint128', 'src/core/str-iprintf.c'),
   ('dtoa', 'src/core/str-dtoa.c')],
  'Digit generation in bases 8 and 16 and output chunking are proved; the '
  'conversions are bounded drawn checks against the C library.', level='other')

P('C16', 'Memory pools hand out disjoint, aligned blocks that keep their content',
  'Every block a pool hands out - libc, stacked frames, FIFO or ring - is '
  'aligned as asked, overlaps no block still in use, is zero unless asked raw, '
  'and keeps its bytes until it is freed, its frame is popped or released, or '
  'the pool is wiped. Reallocation keeps the first bytes, in place or not, '
  'and zeroes the ones it adds unless asked raw.',
  'all histories of allocations, reallocations, frees, frames and seals',
  'Block reuse, page changes and in-place growth depend on the whole history '
  'and on sizes near the page limits; tests allocate a few blocks in order.',
  ['src/core/mem.blk', 'src/core/mem-stack.c', 'src/core/mem-fifo.c',
   'src/core/mem-ring.c', 'src/core/mem-stack.h', 'src/core/mem.h'],
  [('libc_malloc, libc_realloc', 'src/core/mem.blk'),
   ('sp_alloc, sp_realloc, mem_stack_pool_push, mem_stack_pool_pop',
    'src/core/mem-stack.c'),
   ('mfp_alloc, mfp_realloc, mfp_free', 'src/core/mem-fifo.c'),
   ('rp_alloc, rp_realloc, mem_ring_newframe, mem_ring_release',
    'src/core/mem-ring.c')],
  'The libc entry points are proved for every size and alignment; the pools '
  'themselves cast integers to pointers at will, which the verifier does not '
  'carry, and are bounded drawn histories.')

P('C17', 'Hash tables hold exactly the keys put in them',
  'After any history of additions, replacements, removals, clears and resizes, '
  'a hash set or map finds every key that was put and not removed, with the '
  'value last given, finds no other key, and enumerates each once. An addition '
  'of a present key reports the collision and changes only what its name '
  'says.',
  'all histories over all key types and hash values',
  'Incremental rehash, tombstones and collision chains only show after '
  'particular sequences; tests insert a few keys.',
  ['src/container/qhash.c', 'src/container-qhash.h'],
  [('qhash_slot_inv_flags, qhash_scan, qhash_get_size',
    'src/container/qhash.c'),
   ('qhash_safe_get32, qhash_put32, qhash_put_vec, qhash_resize_start, '
    'qhash_move', 'src/container/qhash.c'),
   ('qh_put, qh_add, qh_find, qm_put, qm_add, qm_replace, qhash_del_at',
    'src/container-qhash.h')],
  'Slot flags, sizes and scanning are proved; the tables are bounded drawn '
  'histories against a plain array.')

P('C18', 'Balanced trees stay ordered and balanced',
  'After any history of insertions and removals, an rb_tree holds exactly the '
  'elements inserted and not removed, in key order both ways, is balanced '
  '(red-black), and its searches (equal, next above, next below) give the '
  'right element or none.',
  'all histories of insertions and removals',
  'Each rebalancing case needs a particular shape of the tree around the '
  'node; tests cover a few insertions.',
  ['src/container/rbtree.c', 'src/container-rbtree.h'],
  [('rb_add_node, rb_del_node, __rb_next, __rb_prev',
    'src/container/rbtree.c'),
   ('rb_insert, rb_remove, rb_find, rb_find_upper, rb_find_lower',
    'src/container-rbtree.h')],
  'Bounded drawn histories: the shape of an unbounded tree needs recursive '
  'predicates, which the verifier does not have.', level='other')

P('C19', 'Compressed bitmaps hold the bits added to them',
  'Whatever runs and words are added to a WAH bitmap, and however bitmaps are '
  'combined (and, and-not, or, not, union of many) or copied, its length, '
  'number of bits set, single bits and enumerations (of set or clear bits, '
  'with skips, by word) are those of the plain bit array. Bitmaps written '
  'with their storage are read back the same, whatever the size of the '
  'buckets when they are read.',
  'all histories of additions and combinations, all bucket sizes',
  'Runs, literals, pending bits and bucket ends meet in many ways; tests try '
  'a few maps.',
  ['src/core/bit-wah.c', 'src/bit-wah.h'],
  [('wah_add0s, wah_add1s, wah_add, wah_pad32', 'src/core/bit-wah.c'),
   ('wah_and_, wah_multi_or, wah_not', 'src/core/bit-wah.c'),
   ('wah_bit_enum_scan_word, wah_word_enum_next', 'src/core/bit-wah.c'),
   ('mp_wah_init_from_data', 'src/core/bit-wah.c')],
  'Bounded drawn histories against a plain bit array.', level='other')

P('C20', 'Digests, checksums and ciphers agree with their definitions',
  'MD5, SHA-1, SHA-2, their HMACs, CRC-32, CRC-64, MurmurHash3, Jenkins '
  'and Hsieh hashes give the value their definition gives, in one call or fed in pieces '
  'cut anywhere, at any alignment. AES and DES, single or triple, in ECB, CBC '
  'and CFB modes encrypt as defined and decrypt back; sha2_crypt is the '
  'SHA-256 crypt of the C library.',
  'all messages, all keys, all ways to cut the message',
  'Errors at block ends, in length counters or with leftover bytes need a '
  'particular length and cut; tests use a few known answers.',
  ['src/crypto/md5.c', 'src/crypto/sha1.c', 'src/crypto/sha2.in.c',
   'src/crypto/sha2.c', 'src/crypto/sha4.c', 'src/crypto/hash.c',
   'src/crypto/crc32.c', 'src/crypto/crc64.c', 'src/crypto/aes.c',
   'src/crypto/des.c', 'src/hash.h'],
  [('md5_update, sha1_update, sha2_update, sha4_update and their finish',
    'src/crypto'),
   ('icrc32, icrc64', 'src/crypto/crc32.c'),
   ('murmur_hash3_x64_128_update', 'src/crypto/hash.c'),
   ('aes_crypt_cbc, des3_crypt_cbc', 'src/crypto')],
  'The cutting of messages into blocks, the length and the padding are proved '
  'for messages of any length and any cut, as are the CRC tables; block '
  'functions, ciphers and the other hashes are bounded drawn checks against '
  'libcrypto and references.')

P('C21', 'LZO compression round-trips; safe decompression is contained',
  'Whatever bytes are compressed, compression stays within the announced '
  'bound, and decompressing the result, into any buffer that is large enough, '
  'gives the same bytes. Safe decompression of any bytes whatsoever, into a '
  'buffer of any size, reads nothing outside its input, writes nothing outside '
  'its output, and answers the number of bytes written or an error: a '
  'truncated stream and an output that is too small are refused.',
  'all inputs up to gigabytes, all streams, valid or not, all output sizes',
  'Copies are made by words with overlaps: faults need a run ending a few '
  'bytes before the end of one of the buffers. Tests compress a few files.',
  ['src/core/qlzo-c.c', 'src/core/qlzo-d.c', 'src/core/qlzo.h'],
  [('qlzo1x_decompress_safe, lzo_copy_input, lzo_copy_input_small, '
    'lzo_copy_backptr, lzo_copy_backptr2', 'src/core/qlzo-d.c'),
   ('qlzo1x_compress', 'src/core/qlzo-c.c')],
  'The copy primitives of the decompressor are proved for every size and '
  'position; whole streams are bounded drawn checks against a reference '
  'decoder. What qlzo1x_decompress does with malformed data is not claimed: '
  'its contract excludes it.', level='other')

P('C22', 'IOP binary encoding: round trip, compatibility, containment',
  'Packing any value of any IOP type takes exactly the announced size, gives '
  'the documented wire format, and unpacking it gives an equal value, with the '
  'defaults of what was left out. A reader whose type has fewer, or more '
  'optional, fields reads what both types have and ignores the rest. '
  'Unpacking any other bytes fails or gives a value that can be used, without '
  'ever reading or writing outside its memory.',
  'all values of all types, all evolutions of a type, all byte strings',
  'Sizes and wire types depend on every value and length; malformed messages '
  'come from the network. Tests pack a few values of a few types.',
  ['src/iop/iop.blk', 'src/iop/helpers.in.c', 'src/iop/priv.h'],
  [('pack_struct, pack_class, pack_union, pack_value_vec, iop_bpack_size_flags',
    'src/iop/iop.blk'),
   ('unpack_struct, unpack_class, unpack_union, unpack_value, iop_skip_field',
    'src/iop/iop.blk'),
   ('iop_ranges_search, iop_get_field_len', 'src/iop/iop.blk')],
  'Tags, lengths and integers on the wire, the skipping of any field '
  '(recursion included) and iop_get_field_len are proved for all inputs; whole '
  'values are bounded drawn checks: random values of types with every kind of '
  'field against an independent encoder, readers with some of the fields, and '
  'corrupted messages.', level='other')

P('C23', 'IOP JSON: valid texts, round trip, malformed texts contained',
  'Packing any value of any IOP type in JSON, with any layout flags, gives a '
  'text that standard JSON readers accept, and unpacking that text gives the '
  'value back, whatever characters its strings hold. Unpacking any other text '
  'either fails with an error or gives a value that can be used, without '
  'reading outside the text or stopping the process.',
  'all values of all types, all flags, all texts',
  'Escapes, numbers near limits, default and absent fields meet in many ways, '
  'and texts come from users; tests unpack a few.',
  ['src/iop/json.blk', 'src/iop/cfolder.c', 'src/core/parsing-helpers.c'],
  [('iop_jpack, write_string, __pack_txt', 'src/iop/json.blk'),
   ('iop_junpack_ptr, iop_json_lex, iop_json_lex_expr, unpack_struct',
    'src/iop/json.blk'),
   ('cf_reduce', 'src/iop/cfolder.c'),
   ('parse_backslash', 'src/core/parsing-helpers.c')],
  'Bounded drawn checks: random values of types with every kind of field, a '
  'checker of JSON texts, and corrupted texts under address and undefined '
  'behaviour sanitizers.', level='other')

P('C24', 'Paths: what is simplified, cut, joined or accepted is what was meant',
  'Simplifying a path gives a path that designates the same place, absolute if '
  'and only if it was, without empty, dot or removable parent components, and '
  'never longer. A path is accepted as safe if and only if it is relative and '
  'no component is a parent reference. Directory, base name and extension are '
  'the parts of the path they name; joining and extending give the two parts '
  'in order, or report what does not fit; a relative path leads from the one '
  'to the other. Nothing is read or written outside the texts and buffers.',
  'all paths, all buffer sizes',
  'Components meet in many orders (parents after dots after slashes, at the '
  'root, at the end), and safety is about the one that gets through; tests try '
  'a dozen.',
  ['src/core/str-path.c'],
  [('path_is_safe, path_dirname, path_filepart, path_simplify2, '
    'path_va_extend, path_relative_to', 'src/core/str-path.c')],
  'path_is_safe, path_filepart and path_dirname are proved for paths of any length '
  '(100000 bytes); the others are bounded drawn checks against the list of '
  'components.', level='other')

N('C25', 'Thread jobs run once each, and no wake-up is lost',
  'Every job queued, scheduled or synchronised on runs exactly once, jobs of '
  'a serial queue run one at a time in order, a syncer returns only when all '
  'its jobs have run, and a waiter of an event count never sleeps through the '
  'event it waits for.',
  'all interleavings of all threads, on all memory orders of the machine',
  'A lost wake-up needs one interleaving out of millions.',
  ['src/core/thr-job.blk', 'src/core/thr-evc.c'],
  [('thr_schedule, thr_queue, thr_syn_wait', 'src/core/thr-job.blk'),
   ('thr_ec_wait, thr_ec_signal_n', 'src/core/thr-evc.c')],
  'code contracts of CBMC describe sequential functions: goto-instrument '
  '--dfcc has no rely-guarantee or ownership of shared atomics, and the code '
  'is lock-free with C11 atomics, futexes and work stealing. No contract '
  'within reach can express it; model checking the algorithm would be a model.')
N('C26', 'The event loop calls what is due, and nothing else',
  'A timer is called once it is due and not before, in order, repeated as '
  'asked; a descriptor, signal or child handler is called when and only when '
  'its event is pending; an unregistered handler is never called again.',
  'all histories of registrations, events and calls from within handlers',
  'Handlers unregister each other while the loop walks them.',
  ['src/core/el.blk', 'src/core/el-epoll.in.c'],
  [('el_loop_timeout, el_timer_process', 'src/core/el.blk')],
  'the property is about the order of kernel events and clock against calls '
  'through blocks and function pointers: both sides of it (epoll, time, the '
  'handlers) would be assumed contracts, and what would be left to prove of '
  'the timer heap and the lists is claimed by C10 and C11.')
N('C27', 'What a paged store holds survives a crash as of its last snapshot',
  'After a crash at any point, reopening a QPS spool gives exactly the blocks '
  'of the last complete snapshot, and tries and bitmaps stored in it are read '
  'back the same.',
  'all histories of allocations, writes and snapshots, all crash points',
  'Snapshots are taken by a forked writer while pages are changed.',
  ['src/core/qps.blk', 'src/core/qps-hat.c', 'src/core/qps-bitmap.c'],
  [('qps_snapshot, qps_open, qps_pg_map', 'src/core/qps.blk')],
  'persistence is a relation between memory mappings, forked processes and '
  'files on disk; CBMC has no semantics for mmap, fork or a crash, so the '
  'contracts would all sit on assumed system calls.')
N('C28', 'An IOP query gets one answer, its own',
  'Every RPC sent on a channel is answered once, by the reply to it, a timeout '
  'or a disconnection, whatever the order of replies and of channel events.',
  'all histories of sends, replies, cancellations and disconnections',
  'Slots are reused, channels reconnect, and callbacks delete the channel.',
  ['src/iop/rpc-channel.fc', 'src/iop/rpc-el.c'],
  [('ic_write, ic_read', 'src/iop/rpc-channel.fc')],
  'it depends on the event loop, sockets, TLS and on callbacks through blocks '
  'that may delete the object they are called on; the functions cannot be '
  'taken one by one under a contract that CBMC can discharge. The messages '
  'carried are claimed by C22.')
N('C29', 'HTTP messages are framed as the RFCs say',
  'A request or reply read from a connection has exactly the headers and body '
  'its sender framed (length, chunks, close, HTTP/2 streams), flow control '
  'windows are respected, and malformed framing closes the connection.',
  'all byte streams, cut anywhere in reads, all orders of streams',
  'Request smuggling lives in the disagreements of framing.',
  ['src/net/http.c'],
  [('httpd_parse_idle, httpd_parse_body, http2_conn_on_streams_can_write',
    'src/net/http.c')],
  'the parsers are 7000 lines of state machines called back by the event '
  'loop on sockets, with state in objects with virtual methods that CBMC '
  'resolves to every method of the program; the header coding is claimed by '
  'C06 and C07, the stream primitives by C04.')
N('C30', 'YAML, XML and ASN.1 give back the value they were given',
  'Packing a value in YAML, XML, BER or PER and unpacking it gives the value '
  'back, and unpacking anything else fails or gives a usable value without '
  'reading outside its input.',
  'all values, all texts',
  'Same as for the other codings.',
  ['src/core/yaml.c', 'src/iop/yaml.blk', 'src/iop/xml-unpack.c',
   'src/asn1/asn1.c', 'src/asn1/per.c'],
  [('t_yaml_parse', 'src/core/yaml.c'),
   ('asn1_unpack, asn1_pack', 'src/asn1/asn1.c'),
   ('aper_encode, t_aper_decode', 'src/asn1/per.c')],
  'not reached: recursive descents over descriptor tables and, for XML, the '
  'external libxml2 reader, of which only bounded drawn checks could be made '
  '(as in C22 and C23); no function of theirs is under contract here, so '
  'nothing is claimed.')
