#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it is easy to edit)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

prop("B01","Block decryption inverts encryption",
 "For every block cipher, every key of every accepted length, the default and any other valid round count, and every tweak where the cipher has one, decrypting the encryption of any block gives that block back, and encrypting the decryption of any block gives that block back.",
 ["inputs","configurations"],"all keys, all blocks, all tweaks; every cipher; key lengths 1..maxkey; default and non-default rounds",
 "The tests run one or a few published vectors per cipher, mostly at one key length and the default rounds; an error on an untested key length, table entry, round parity or tweak is invisible.",
 ["lib/block.c","lib/block/*.c"],[("encrypt/decrypt pair of each cipher","lib/block/*.c: *_encrypt, *_decrypt, *_setup")],
 [("key schedule","subkeys derived by create/recreate","lib/block/*.c struct kripto_block")],["kripto_block_encrypt","kripto_block_decrypt"])
prop("B02","Block ciphers compute their published function",
 "For every block cipher, key and block, encryption gives the value its published specification defines for that key length, round count and tweak (keys shorter than a standard length are treated as the cipher's specification or the library's zero-extension rule says).",
 ["inputs","configurations"],"all keys and all blocks; every cipher; the specified key lengths and default rounds, plus reduced rounds",
 "Published vectors pin the function at a handful of points; wrong behaviour for particular key bytes, subkey carries, S-box entries or key lengths can pass all of them.",
 ["lib/block/*.c"],[("round function and key schedule","lib/block/*.c")],observe=["kripto_block_encrypt"])
prop("B03","Re-keying a block cipher equals creating it anew",
 "After kripto_block_recreate with any rounds, key and key length, whatever key, rounds, tweak and calls came before, the object encrypts and decrypts exactly as a freshly created one with those parameters, and it keeps reporting the same descriptor; encrypting and decrypting any number of blocks in between does not change what later calls return.",
 ["inputs","histories","configurations"],"all old and new keys, key lengths and round counts (same, more, fewer), any previous use",
 "No test calls recreate on a block cipher with a different round count or key length, and none interleaves calls on one object.",
 ["lib/block.c","lib/block/*.c"],[("recreate: in-place re-setup or destroy+create","lib/block/*.c: *_recreate")],[("subkeys","left over from the previous key","struct kripto_block")],["kripto_block_recreate"])
prop("B04","Block operations may alias and write exactly one block",
 "Encrypting or decrypting with the output buffer equal to the input buffer gives the same result as with separate buffers, the input is otherwise left unmodified, exactly one block is written, and the cipher object is not modified.",
 ["inputs","configurations"],"all keys and blocks, separate and identical buffers, every cipher",
 "The tests look only at the bytes they expect; they place no guard bytes round buffers and hardly ever run in place.",
 ["lib/block.c","lib/block/*.c"],[("load all, compute, then store","lib/block/*.c: *_encrypt/*_decrypt")],observe=["kripto_block_encrypt","kripto_block_decrypt"])
prop("S01","Stream decryption inverts encryption in any call pattern",
 "For every stream cipher and block mode, if two objects are created with equal key, IV and rounds, decrypting with the second what the first encrypted gives back the plaintext, however each side splits the data into calls of the allowed granularity and whether buffers are separate or the same.",
 ["inputs","histories","configurations"],"all keys, IVs, data; every way to split a message within the bounds; in place or not",
 "Tests use one key, one message, one call; CBC, CFB, OFB, ECB, RC4, Keccak and Skein streams have no test at all.",
 ["lib/stream.c","lib/stream/*.c"],[("buffer position kept between calls","lib/stream/*.c: s->i / s->used")],[("keystream position","bytes of the current block already consumed","struct kripto_stream")],["kripto_stream_encrypt","kripto_stream_decrypt"])
prop("S02","Splitting stream calls never changes the output",
 "For every stream object, processing data with one call or with any sequence of calls of the allowed granularity (zero-length calls included) gives the same bytes, for encrypt, decrypt and the keystream generator; for keystream ciphers generated bytes equal the encryption of zeros at the same position and may be freely interleaved with encryption.",
 ["inputs","histories"],"all keys, IVs, data; all splits of a message within the bounds, for each function",
 "Tests process each vector in one call, so state carried over a partial block is never exercised.",
 ["lib/stream.c","lib/stream/*.c"],[("keystream buffering","lib/stream/*.c")],[("keystream position","offset in current block","struct kripto_stream")],["kripto_stream_encrypt","kripto_stream_decrypt","kripto_stream_prng"])
prop("S03","Block modes implement their definitions over any cipher",
 "CBC, CFB, OFB, CTR and ECB objects created over any block cipher compute exactly the standard mode definition in terms of that cipher under the given key and rounds, with the IV (zero-extended if short) and, for CTR, a big-endian counter that carries over its whole width.",
 ["inputs","configurations"],"all keys, IVs, data; the cipher is an arbitrary uninterpreted permutation, at several block sizes; all counter values",
 "Only CTR has tests: two vectors whose counter never carries far.",
 ["lib/stream/cbc.c","lib/stream/cfb.c","lib/stream/ofb.c","lib/stream/ctr.c","lib/stream/ecb.c"],[("mode loops","lib/stream/{cbc,cfb,ofb,ctr,ecb}.c")],[("chaining value / counter","previous block or counter","struct kripto_stream")],["kripto_stream_encrypt","kripto_stream_decrypt"])
prop("S04","Stream ciphers produce their specified keystream",
 "ChaCha, XChaCha, Salsa20, XSalsa20, RC4 and the Keccak and Skein stream modes give the keystream their definition prescribes for every key, IV and position, including the advance of the block counter, and encrypting is XOR with it.",
 ["inputs","configurations"],"all keys and IVs of every accepted length; keystream positions over several blocks; counter carry",
 "Tests hold a few vectors for ChaCha and Salsa20 only.",
 ["lib/stream/chacha.c","lib/stream/salsa20.c","lib/stream/rc4.c","lib/stream/keccak.c","lib/stream/skein256.c","lib/stream/skein512.c","lib/stream/skein1024.c"],[("core function and counter","lib/stream/*.c")],[("counter","block counter","struct kripto_stream")],["kripto_stream_prng"])
prop("S05","Re-keying a stream equals creating it anew",
 "After kripto_stream_recreate with any key, IV and rounds, whatever was created and processed before, the object behaves exactly as a freshly created one with those parameters.",
 ["inputs","histories","configurations"],"all old/new keys, IVs, lengths and rounds; any position within a block at the time of the call",
 "No test calls recreate on a stream in mid-block or with other lengths.",
 ["lib/stream.c","lib/stream/*.c"],[("recreate","lib/stream/*.c: *_recreate")],[("keystream buffer","left over bytes of the old stream","struct kripto_stream")],["kripto_stream_recreate"])
prop("H01","Hashes compute their published function",
 "For every hash function, message of any length and supported output length, the digest equals the value the function's specification (MD5, SHA-1, SHA-2, SHA-3/Keccak, BLAKE, BLAKE2, Skein, Tiger, Whirlpool) defines, with the salt where there is one.",
 ["inputs","configurations"],"all messages of every length up to several blocks, i.e. every padding case; the output lengths and salts accepted",
 "Tests hold a few messages; most lengths modulo the block size are never hashed, and BLAKE, BLAKE2, Skein and Keccak-800 have no test.",
 ["lib/hash.c","lib/hash/*.c"],[("padding and finalisation","lib/hash/*.c: *_finish"),("compression function","lib/hash/*.c: *_process")],[("buffer fill","bytes of a partial block","struct kripto_hash")],["kripto_hash_output"])
prop("H02","Hash input and output may be split freely",
 "The digest depends only on the concatenation of the input pieces: any sequence of input calls, empty ones included, gives the same digest as one call and as kripto_hash_all; reading the output in several calls gives the same bytes as one call.",
 ["inputs","histories"],"all messages, all splits into two and more pieces around block boundaries",
 "Tests use few splits; an error that needs a piece to end exactly at, or one byte from, a block boundary is not sampled.",
 ["lib/hash.c","lib/hash/*.c"],[("input buffering","lib/hash/*.c: *_input"),("output position","lib/hash/*.c: *_output")],[("buffer fill","bytes of a partial block","struct kripto_hash")],["kripto_hash_input","kripto_hash_output","kripto_hash_all"])
prop("H03","Recreating a hash equals creating it anew",
 "After kripto_hash_recreate with any parameters, whatever was hashed before and whether or not output was read, the object behaves exactly like a freshly created one.",
 ["inputs","histories","configurations"],"all previous histories within the bounds, all rounds/salt/output-length parameters accepted",
 "Tests recreate at most after a full hash with the same parameters.",
 ["lib/hash.c","lib/hash/*.c"],[("recreate","lib/hash/*.c: *_recreate")],[("finalised flag, length counter","must be reset","struct kripto_hash")],["kripto_hash_recreate"])
prop("M01","MACs compute their published function",
 "HMAC over any hash, OMAC (CMAC) and XCBC over any block cipher, and the Keccak and Skein MACs give the tag their definition prescribes (HMAC with the block size the hash reports) for every key of every accepted length, every message and every tag length.",
 ["inputs","configurations"],"all keys and messages of every length up to several blocks; key shorter than, equal to and longer than the block; arbitrary (uninterpreted) underlying primitive",
 "Tests hold a few vectors over one or two primitives; Keccak and Skein MACs have no test.",
 ["lib/mac.c","lib/mac/*.c"],[("subkey derivation, padding","lib/mac/*.c")],[("buffer fill, chaining value","partial block","struct kripto_mac")],["kripto_mac_tag"])
prop("M02","MAC input may be split and verification is exact",
 "A tag depends only on the key and the concatenation of the input pieces, kripto_mac_all gives the same tag as create/input/tag, and kripto_mac_verify accepts a tag exactly when it equals the computed one over the given length.",
 ["inputs","histories"],"all keys, messages, splits; all candidate tags",
 "A test can try a few wrong tags; acceptance of one particular wrong tag, or a split at an unlucky boundary, cannot be excluded by sampling.",
 ["lib/mac.c","lib/mac/*.c","lib/memory.c"],[("verify","lib/mac.c: kripto_mac_verify"),("mac_all","lib/mac.c")],observe=["kripto_mac_verify","kripto_mac_all"])
prop("M03","Re-keying a MAC equals creating it anew",
 "After kripto_mac_recreate with any key, rounds and tag length, whatever was processed before, the object behaves exactly like a freshly created one with those parameters.",
 ["inputs","histories","configurations"],"all old and new keys and lengths; any amount of data processed and tag read or not before",
 "The tests do not recreate a MAC in the middle of a message or with another key length.",
 ["lib/mac.c","lib/mac/*.c"],[("recreate","lib/mac/*.c: *_recreate")],[("chaining value, buffer fill","left over","struct kripto_mac")],["kripto_mac_recreate"])
prop("A01","EAX and EAX2 compute their published function",
 "For any block cipher, key, nonce, header and message, EAX and EAX2 give the ciphertext and tag their definition prescribes, decryption gives the plaintext and the same tag, and verification accepts exactly that tag.",
 ["inputs","configurations"],"all keys, nonces, headers, messages within the length bounds; arbitrary (uninterpreted) block cipher",
 "Tests hold the ten published EAX vectors over AES in one call each; EAX2 has none.",
 ["lib/ae.c","lib/ae/eax.c","lib/ae/eax2.c"],[("OMAC tweaks 0/1/2 and CTR","lib/ae/eax.c")],[("three MAC objects and a CTR stream","nonce, header, ciphertext","struct kripto_ae")],["kripto_ae_tag","kripto_ae_verify"])
prop("A02","Authenticated encryption is insensitive to call pattern",
 "Ciphertext and tag depend only on key, nonce and the concatenation of header pieces and of message pieces: any split into calls, any interleaving of header calls with message calls, and in-place operation give the same result, and recreating an object gives the same as creating it.",
 ["inputs","histories"],"all data; splits of header and message, interleavings, in place or not, recreate after any use",
 "Tests use one call per part and never recreate with other parameters.",
 ["lib/ae.c","lib/ae/eax.c","lib/ae/eax2.c"],[("per-part MAC objects","lib/ae/*.c")],observe=["kripto_ae_encrypt","kripto_ae_header","kripto_ae_recreate"])
prop("K01","PBKDF2 computes RFC 8018",
 "For any MAC, password, salt, iteration count and output length, kripto_pbkdf2 returns success and the key RFC 8018 defines.",
 ["inputs","configurations"],"all passwords and salts; the PRF is uninterpreted; several output lengths (below, at, above the PRF length), iteration counts and lengths",
 "Tests hold a few HMAC-SHA1 vectors.",
 ["lib/pbkdf2.c"],[("block loop, counter","lib/pbkdf2.c")],observe=["kripto_pbkdf2"])
prop("K02","scrypt computes RFC 7914",
 "For any password, salt and parameters N, r, p and output length, kripto_scrypt returns success and the key RFC 7914 defines; parameters whose working memory cannot be had are reported as an error without touching anything else.",
 ["inputs","configurations"],"all passwords and salts, small N, r, p and lengths, including N smaller and larger than the number of lanes; parameters at which sizes overflow 32 and 64 bits",
 "The test suite has one vector, at one (N, r, p).",
 ["lib/scrypt.c"],[("ROMix, BlockMix","lib/scrypt.c")],observe=["kripto_scrypt"])
prop("U01","PKCS#7 padding is exact and reversible",
 "Adding padding to a partial block writes the pad value in all remaining bytes and nothing else, and removing it gives back the original length for every data and fill level, a block of padding only included. If the padded length does not fit in the buffer nothing is written and 0 is returned; removal never reports more than the length given, and leaves it unchanged when the last byte is zero or exceeds it.",
 ["inputs"],"all block contents, all block sizes 1..255 within the bound, all fill levels",
 "PKCS#7 has no test.",
 ["lib/pkcs7.c"],[("add/rem","lib/pkcs7.c")],observe=["kripto_pkcs7_add","kripto_pkcs7_rem"])
prop("U02","Memory helpers compare exactly, in constant time, and wipe",
 "kripto_memory_equals returns true exactly when the regions are equal for every length, without any branch or memory address depending on their contents; kripto_memory_wipe zeroes exactly the given region.",
 ["inputs"],"all contents, lengths 0..64",
 "A wrong comparison that differs for one byte pattern, a data-dependent early exit, or an off-by-one wipe passes any sampled test.",
 ["lib/memory.c","include/kripto/memory.h"],[("equals, wipe","lib/memory.c")],observe=["kripto_memory_equals","kripto_memory_wipe"])
prop("U03","Load, store and rotate primitives are exact",
 "Every load/store primitive reads or writes exactly the bytes of its width in its byte order, array loads pack exactly the given number of bytes, and every rotation rotates by exactly its amount, for every value, in the native and in the portable build configuration.",
 ["inputs","configurations"],"all values; all rotation amounts; all array lengths within the bound; native and portable variants",
 "Only exercised through the ciphers that use them; many variants have no user or no test.",
 ["include/kripto/loadstore.h","include/kripto/rotate.h"],[("macros and inline functions","include/kripto/{loadstore,rotate}.h")],observe=["LOAD*/STORE*","ROL*/ROR*"])
prop("U04","Random generator reports success only for full system randomness",
 "kripto_random_gen fills the buffer with exactly the bytes the system source delivers and returns how many it delivered, so the full length means full randomness; an open failure or a short read never reports more, nothing is written beyond the length asked for, and what is opened is closed.",
 ["inputs","fault_sequences"],"all lengths within the bound, every outcome of open/read/close, environment override set or not",
 "There is no test of it, and a test cannot make the system source fail.",
 ["lib/random.c"],[("unix source","lib/random.c")],observe=["kripto_random_gen"])
prop("X01","Valid API use is memory-safe",
 "No sequence of valid API calls reads or writes outside the objects and buffers involved, uses freed or uninitialised memory, divides by zero, or hits an internal assertion, for any contents and any accepted lengths, rounds and parameters.",
 ["inputs","histories","configurations"],"every algorithm, all contents, the accepted key/IV/salt/output lengths within the bounds",
 "The tests run without guards on few lengths; an overrun for an untested key length or output length is invisible.",
 ["lib/**/*.c"],[("buffer sizes","lib/*/*.c")],observe=["all public functions"])
prop("X02","Destroying or re-keying leaves no secret in freed memory",
 "When an object's memory is returned to the allocator, by destroy, by a recreate that reallocates, or by a one-shot function, no byte of it still depends on the key, password or message.",
 ["inputs","histories"],"all keys and data; every object type and one-shot function, every release of memory",
 "Tests never look at freed memory.",
 ["lib/memory.c","lib/**/*.c"],[("kripto_memory_wipe before free","lib/*/*.c: *_destroy")],observe=["free()"])
prop("X03","Allocation failure is reported and leaks nothing",
 "If any allocation fails, creating returns null (one-shot functions return an error), no memory stays allocated because of the failed call, nothing is freed twice, and no call crashes.",
 ["fault_sequences","configurations"],"every single allocation failing, in turn, in every create, recreate and one-shot function",
 "The tests never make an allocation fail.",
 ["lib/**/*.c"],[("error paths","lib/*/*.c: *_create")],observe=["malloc/free"])
prop("X04","Objects are independent and leak nothing",
 "Objects share no mutable state: operations on one never change the results of another, of the same or another type, no public function changes global memory, and after destroying every object all memory is released.",
 ["inputs","histories"],"all contents; two objects of each type used in interleaved order",
 "Tests use one object at a time.",
 ["lib/**/*.c"],[("per-object state only","lib/*/*.c")],observe=["all public functions"])
prop("X05","Descriptors report true limits and objects report their descriptor",
 "The block size, key, IV, tweak, salt, tag and output limits and granularity the library reports are those of the algorithms, getdesc returns the descriptor the object was created with, and an operation works at those limits.",
 ["configurations"],"every descriptor, and mode and MAC descriptors built over any cipher or hash",
 "Tests read few of these values.",
 ["lib/block.c","lib/stream.c","lib/hash.c","lib/mac.c","lib/ae.c","lib/*/*.c"],[("descriptor tables","lib/*/*.c")],observe=["kripto_*_max*","kripto_*_getdesc"])
prop("R01","Randomness test statistic",
 "kripto_random_test returns, for every sample, the statistics of its definition.",
 ["inputs"],"all samples","No test calls it.",["lib/random.c"],[("random_test","lib/random.c")],observe=["kripto_random_test"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
