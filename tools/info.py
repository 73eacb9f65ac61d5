"""What each check decides, for the evidence files and the manifest."""
from cases import INFO
GOLD = 'The specification side is ref/golden, an independent frozen copy of the repaired library compiled with renamed symbols (compared by tools/validate_golden.py with hashlib, OpenSSL and Python code written from the BLAKE, Threefish, Skein, RC5, RC6, Salsa20 and ChaCha specifications, and by the test vectors of the library); both sides run symbolically on the same symbolic inputs and the outputs are compared byte by byte.'
UFB = 'The underlying primitive is a stub whose results are uninterpreted functions of everything they may depend on, so the result holds for every primitive.'
OUTL = 'Lengths, key sizes, round counts and block sizes not listed; counters beyond the positions the far cases set (up to 2^32 bytes); big-endian hosts; compilers other than clang 18 at -O1 without passes; undefined behaviour of the C library.'
def I(p, e, b, o=OUTL, note=None): INFO[p] = dict(explanation=e, bounds=b, outside=o, note=note)
I('B01', 'The harness encrypts a symbolic block under a symbolic key, decrypts the result and asserts equality (dir 1), and the reverse (dir 2). For 3-Way, ARIA, IDEA and Serpent the composition is out of reach at full rounds; each direction is compared with the frozen reference instead (case *-pair-*) and a difference counts only if the native round trip of the counterexample fails.', 'Every key bit, block bit and tweak bit symbolic; key lengths: the standard ones, 1, 5 and the maximum (thorough: every length up to 64); the default rounds and, per cipher, a range of round counts (cases *-rN..) and one high count.', OUTL + ' For 3-Way, ARIA, IDEA and Serpent at full rounds invertibility of the frozen reference itself is not decided (reduced rounds and concrete vectors only).')
I('B02', GOLD, 'Every key and block symbolic; every key length (cases *-kN.. take a range of lengths each, at reduced rounds where the full cipher is expensive); the default rounds, ranges of round counts (*-rN..) and one high count; tweaks of full and partial length; both directions. Blowfish, RC4-like key schedules with data-dependent table chains: concrete keys.', OUTL)
I('B03', 'An object is created, used, re-created with other parameters and compared with a fresh object of these parameters on the same symbolic block, both directions; getdesc and the live allocation count are asserted.', 'Every old and new key symbolic; pairs of key lengths (standard, 1, maximum) and of round counts (default, fewer, more).')
I('B04', 'Encrypt and decrypt run with separate and identical buffers inside guarded buffers; input, guards and the whole object memory are compared.', 'Every key, block and guard byte symbolic; default and two other round counts.')
I('S01', 'Two objects with the same symbolic key and IV; the data is split at solver-chosen points differently on both sides.', 'Modes over an uninterpreted permutation at block sizes 8 and 16 (thorough 4, 12, 32); messages crossing at least one block border; every one-cut or two-cut split. Large: ten blocks and more, 4096 bytes and a block, separate and in place; last bytes symbolic.')
I('S02', 'One call against every split of the same message (zero-length calls included), separate and in place, for encrypt, decrypt, prng and encrypt/prng interleavings.', 'Message 2 blocks and more (native ciphers 2b+1 where one cut, 20 bytes where two cuts); every cut position. Large: ten blocks and more, 4096 bytes and a block, cut at any place near the end.')
I('S03', 'Compared with a reference written from the definition of each mode in the harness. ' + UFB, 'Block sizes 8 12 16 20 32 (thorough 1..64), messages up to 3 blocks, every IV length, key lengths 1 16 64, rounds 0 3 7; for CTR the counter is an arbitrary IV, so every carry chain is covered. Block sizes 4..64 for messages of ten blocks and of 4096 bytes and a block.')
I('S04', GOLD, 'ChaCha, Salsa20: every IV length 0..24 and key length 1..32, 2b+1 bytes of keystream, rounds 8 12 7 1; the block counter set to positions up to 2^32 bytes (*-far*, located in the object by its linear growth, confirmed natively by really processing the bytes); Keccak and Skein streams: key and IV lengths over more than a rate; RC4: symbolic keys of seven lengths for 12 bytes, one concrete key for 300. Messages of ten blocks, of 4096 bytes and a block and of 66000 bytes; keys and IVs of the sponge and Skein streams of 255..1000 bytes.')
I('S05', 'A used object is re-created and compared with a fresh one on encrypt, decrypt and prng.', 'Every position of use up to about a block at the time of the call; pairs of key and IV lengths and rounds; re-creation after up to 2^32 bytes (*-far*).')
I('H01', GOLD, 'Every message length 0..2 blocks+2 (thorough 4 blocks+2), all message bits symbolic; output lengths, salts and rounds as in tools/cases_hash.py; long sponge output; length counters set to 2^8..2^32 bytes (*-far*, as for S04). Messages of ten blocks, of 4096 bytes and a block and of 66000 bytes; Skein salts of 255..1000 bytes and announced outputs of 512 MiB and more.')
I('H02', 'One input call against every one-cut and two-cut split, byte-wise input, and kripto_hash_all.', 'Messages up to 2 blocks+2; every cut position; output read in one and in two pieces for Keccak. Messages of ten blocks and more and of 4096 bytes, cut in pieces.')
I('H03', 'A used object (any input length, output read or not) is re-created and compared with a fresh one.', 'Previous input 0..block+1; parameter pairs of output length, salt and rounds; re-creation after 2^8..2^32 bytes (*-far*).')
I('M01', 'HMAC, OMAC and XCBC are compared with references written from RFC 2104, SP 800-38B and RFC 3566 in harness/ref_mac.h. ' + UFB + ' Keccak and Skein MACs: ' + GOLD, 'HMAC: hash blocks 3..128, every key length class (1, half, block-1, block, block+1, 2 block+1), messages 0..2 blocks+1; OMAC: block 4..128; XCBC: 4..64, messages 0..3 blocks+1; tag lengths. Keccak/Skein: message and key lengths 0..2 rates+2, and 2^8..2^32 bytes in (*-far*). OMAC: every block size 1..255 (one-byte message; the field polynomials were computed by tools/poly.py); XCBC: 14 more block sizes up to 255. Messages of ten blocks, 255..257, 4096 and 66000 bytes; HMAC keys up to 4100 bytes, Skein and Keccak keys up to 1000.', OUTL + ' HMAC over sponge hashes uses the state size as block size (library definition).')
I('M02', 'One input call against every split; mac_all; kripto_mac_verify with an arbitrary candidate tag must accept exactly the computed one.', 'Messages up to 3 blocks, one and two cuts; candidate tag fully symbolic up to 64 bytes, any one byte changed up to 128 bytes. Messages of ten blocks, 257 and 4096 bytes in pieces.')
I('M03', 'A used MAC object is re-created (twice) and compared with a fresh one.', 'Previous input 0..block+1, tag read or not; key length, rounds and tag length pairs.')
I('A01', 'Compared with a reference of EAX (Bellare, Rogaway, Wagner) and of EAX2 written in the harness. ' + UFB, 'Block sizes 4..32 (thorough 64); every nonce length up to the limit, header 0..2 blocks+1, message up to 3 blocks+1 (small blocks), tag 1..maximum; EAX2 over four limit sets, with MAC objects that move on re-creation. Headers, messages of up to 1000 bytes.')
I('A02', 'One call per part against every split of header and message, all orders of header against message pieces, in place, and re-creation after any use.', 'Block sizes 4 8 16 (thorough 32); messages and headers of about one block; two cuts. Pieces of headers and messages of several hundred bytes.')
I('K01', 'Compared with PBKDF2 of RFC 8018 written in the harness over an uninterpreted PRF.', 'PRF output 1..64 bytes, output 1..3 hLen+1 and up to 66000 bytes (block counter beyond 16 bits), iterations 1..300, password and salt 0..70 bytes. Passwords and salts of 255..1000 bytes, up to 65537 iterations.')
I('K02', 'Compared with scrypt of RFC 7914 written in the harness, PBKDF2 over an uninterpreted PRF; Integerify is a symbolic index into V, so every memory access pattern is covered.', 'N up to 1024, r up to 36, p up to 20 in combinations whose cost N*r*p stays bounded (see tools/cases_kdf.py); password, salt and output 0..70 bytes. p*r up to 1035. 23 parameter sets at the 32 and 64 bit overflow of the sizes: error, nothing touched.', OUTL)
I('U01', 'Padding added at every fill level and removed; every byte outside the pad asserted unchanged; removal from an arbitrary buffer compared with the definition the header gives (last byte 0 or larger than the length: length unchanged).', 'Block sizes: 32 of 1..255 in the quick tier, all in the thorough tier; lengths 0..2 blocks+2. Block sizes with long data up to 1000 bytes; data lengths round 2^16, 2^31, 2^32, 2^33 and 2^40.')
I('U02', 'kripto_memory_equals against a byte-wise definition, with a check that no branch condition and no address depends on the contents; kripto_memory_wipe in guarded buffers.', 'Lengths 0..40, 63..65, 128, 129, 255..258 (thorough 0..320); wipe up to 70000 bytes. Comparisons of 1000 to 66000 bytes.')
I('U03', 'Every load, store, array and rotate primitive against its arithmetic definition, in the native configuration, in one with the compiler-specific variants off, and with the explicit little-endian option.', 'All values and all rotation amounts (constant and symbolic); array lengths 0..the word array size.')
I('U04', 'lib/random.c is compiled into the harness with stand-ins for fopen, fread, fclose, setvbuf whose outcomes are symbolic (open fails, any short read, any contents).', 'Requests 0..80 bytes and around 256 and 4096, up to three calls.', 'The Windows and OpenBSD sources of randomness; the kernel.')
LIFE = 'The life of an object of every type (create, use, re-create, use, destroy) in heap buffers of exactly the size passed. '
I('X01', LIFE + 'Every load and store is an obligation (inside a live object, initialised where the value matters), as is every shift, division, signed overflow and assertion.', 'Every key length of every cipher (thorough; quick: strides for the keys over 130 bytes), input lengths 0..2 blocks+2, tag, salt, IV, output lengths over their range; contents symbolic (Blowfish and RC4 key set-up: concrete keys). Long inputs past 255 bytes and ten blocks for every type (messages, keys, salts, IVs, headers, passwords).')
I('X02', LIFE + 'Keys, messages and derived state are marked secret; at every free() each byte of the block must be independent of them (decided by the terms, candidates confirmed by two native runs that differ in the secret only).', 'One configuration per type and round count in the quick tier, all of X01 in the thorough tier. Automatic variables are outside. Long inputs as in X01.', OUTL + ' Stack and register residues: the property speaks of heap memory.')
I('X03', LIFE + 'Every allocation in turn fails; the solver-chosen index covers all of them. Returned null or error, no leak, no double free, no crash.', 'All single failures in creation, re-creation and one-shot functions of every type; combinations of two failures not covered.')
I('X04', LIFE + 'A store to any global object is a violation; the count of live allocations returns to its start. Two objects (same type sharing a descriptor, and different types) run in every interleaving of their five steps and must each behave as alone.', 'All 252 interleavings for same-type pairs (one for a few slow ones), four fixed interleavings for mixed pairs.', OUTL + ' Threads: instruction-level interleavings follow from the absence of global stores but are not explored.')
I('X05', 'The tables of limits; descriptors of modes, MACs, AE over primitives with symbolic limits (block size, key, tag, IV; EAX2 with the saturating sum); getdesc and multof after creation, use and re-creation at the limits.', 'Every descriptor; underlying limits arbitrary 32-bit values (block size 1..255).', OUTL)
FAR = ' Cases *-far*-eN: one call with 2^16, 2^31, 2^32 or 2^33 bytes and a few more or less, of which only the first 640 exist: reaching beyond them is required, returning is the violation (a length narrowed to 16, 31 or 32 bits).'
for _p in ('H02', 'S02', 'M02', 'A02', 'K01', 'K02', 'U02'): INFO[_p]['bounds'] += FAR
