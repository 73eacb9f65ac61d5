/* gives the frozen copy its own external names */
#define kripto_ae_create ref_kripto_ae_create
#define kripto_ae_decrypt ref_kripto_ae_decrypt
#define kripto_ae_destroy ref_kripto_ae_destroy
#define kripto_ae_eax ref_kripto_ae_eax
#define kripto_ae_eax2 ref_kripto_ae_eax2
#define kripto_ae_encrypt ref_kripto_ae_encrypt
#define kripto_ae_getdesc ref_kripto_ae_getdesc
#define kripto_ae_header ref_kripto_ae_header
#define kripto_ae_maxiv ref_kripto_ae_maxiv
#define kripto_ae_maxkey ref_kripto_ae_maxkey
#define kripto_ae_maxtag ref_kripto_ae_maxtag
#define kripto_ae_multof ref_kripto_ae_multof
#define kripto_ae_recreate ref_kripto_ae_recreate
#define kripto_ae_tag ref_kripto_ae_tag
#define kripto_ae_verify ref_kripto_ae_verify
#define kripto_block_3way ref_kripto_block_3way
#define kripto_block_aes ref_kripto_block_aes
#define kripto_block_anubis ref_kripto_block_anubis
#define kripto_block_aria ref_kripto_block_aria
#define kripto_block_blowfish ref_kripto_block_blowfish
#define kripto_block_camellia ref_kripto_block_camellia
#define kripto_block_cast5 ref_kripto_block_cast5
#define kripto_block_crax_s ref_kripto_block_crax_s
#define kripto_block_create ref_kripto_block_create
#define kripto_block_decrypt ref_kripto_block_decrypt
#define kripto_block_des ref_kripto_block_des
#define kripto_block_destroy ref_kripto_block_destroy
#define kripto_block_encrypt ref_kripto_block_encrypt
#define kripto_block_getdesc ref_kripto_block_getdesc
#define kripto_block_gost ref_kripto_block_gost
#define kripto_block_gost_cbr ref_kripto_block_gost_cbr
#define kripto_block_gost_r34_12_2015 ref_kripto_block_gost_r34_12_2015
#define kripto_block_idea ref_kripto_block_idea
#define kripto_block_khazad ref_kripto_block_khazad
#define kripto_block_lea ref_kripto_block_lea
#define kripto_block_maxkey ref_kripto_block_maxkey
#define kripto_block_maxtweak ref_kripto_block_maxtweak
#define kripto_block_noekeon ref_kripto_block_noekeon
#define kripto_block_rc2 ref_kripto_block_rc2
#define kripto_block_rc5 ref_kripto_block_rc5
#define kripto_block_rc6 ref_kripto_block_rc6
#define kripto_block_recreate ref_kripto_block_recreate
#define kripto_block_rectangle ref_kripto_block_rectangle
#define kripto_block_rijndael128 ref_kripto_block_rijndael128
#define kripto_block_rijndael256 ref_kripto_block_rijndael256
#define kripto_block_safer ref_kripto_block_safer
#define kripto_block_safer_sk ref_kripto_block_safer_sk
#define kripto_block_saferpp ref_kripto_block_saferpp
#define kripto_block_seed ref_kripto_block_seed
#define kripto_block_serpent ref_kripto_block_serpent
#define kripto_block_shacal2 ref_kripto_block_shacal2
#define kripto_block_simon128 ref_kripto_block_simon128
#define kripto_block_simon32 ref_kripto_block_simon32
#define kripto_block_simon64 ref_kripto_block_simon64
#define kripto_block_size ref_kripto_block_size
#define kripto_block_skipjack ref_kripto_block_skipjack
#define kripto_block_sm4 ref_kripto_block_sm4
#define kripto_block_speck128 ref_kripto_block_speck128
#define kripto_block_speck32 ref_kripto_block_speck32
#define kripto_block_speck64 ref_kripto_block_speck64
#define kripto_block_tea ref_kripto_block_tea
#define kripto_block_threefish1024 ref_kripto_block_threefish1024
#define kripto_block_threefish256 ref_kripto_block_threefish256
#define kripto_block_threefish512 ref_kripto_block_threefish512
#define kripto_block_trax_l ref_kripto_block_trax_l
#define kripto_block_trax_m ref_kripto_block_trax_m
#define kripto_block_tweak ref_kripto_block_tweak
#define kripto_block_twofish ref_kripto_block_twofish
#define kripto_block_xtea ref_kripto_block_xtea
#define kripto_hash_all ref_kripto_hash_all
#define kripto_hash_blake256 ref_kripto_hash_blake256
#define kripto_hash_blake2b ref_kripto_hash_blake2b
#define kripto_hash_blake2s ref_kripto_hash_blake2s
#define kripto_hash_blake512 ref_kripto_hash_blake512
#define kripto_hash_blocksize ref_kripto_hash_blocksize
#define kripto_hash_create ref_kripto_hash_create
#define kripto_hash_destroy ref_kripto_hash_destroy
#define kripto_hash_getdesc ref_kripto_hash_getdesc
#define kripto_hash_input ref_kripto_hash_input
#define kripto_hash_keccak1600 ref_kripto_hash_keccak1600
#define kripto_hash_keccak800 ref_kripto_hash_keccak800
#define kripto_hash_maxout ref_kripto_hash_maxout
#define kripto_hash_maxsalt ref_kripto_hash_maxsalt
#define kripto_hash_md5 ref_kripto_hash_md5
#define kripto_hash_output ref_kripto_hash_output
#define kripto_hash_recreate ref_kripto_hash_recreate
#define kripto_hash_sha1 ref_kripto_hash_sha1
#define kripto_hash_sha2_256 ref_kripto_hash_sha2_256
#define kripto_hash_sha2_512 ref_kripto_hash_sha2_512
#define kripto_hash_sha3 ref_kripto_hash_sha3
#define kripto_hash_skein1024 ref_kripto_hash_skein1024
#define kripto_hash_skein256 ref_kripto_hash_skein256
#define kripto_hash_skein512 ref_kripto_hash_skein512
#define kripto_hash_tiger ref_kripto_hash_tiger
#define kripto_hash_whirlpool ref_kripto_hash_whirlpool
#define kripto_mac_all ref_kripto_mac_all
#define kripto_mac_create ref_kripto_mac_create
#define kripto_mac_destroy ref_kripto_mac_destroy
#define kripto_mac_getdesc ref_kripto_mac_getdesc
#define kripto_mac_hmac ref_kripto_mac_hmac
#define kripto_mac_input ref_kripto_mac_input
#define kripto_mac_keccak1600 ref_kripto_mac_keccak1600
#define kripto_mac_keccak800 ref_kripto_mac_keccak800
#define kripto_mac_maxkey ref_kripto_mac_maxkey
#define kripto_mac_maxtag ref_kripto_mac_maxtag
#define kripto_mac_omac ref_kripto_mac_omac
#define kripto_mac_recreate ref_kripto_mac_recreate
#define kripto_mac_skein1024 ref_kripto_mac_skein1024
#define kripto_mac_skein256 ref_kripto_mac_skein256
#define kripto_mac_skein512 ref_kripto_mac_skein512
#define kripto_mac_tag ref_kripto_mac_tag
#define kripto_mac_verify ref_kripto_mac_verify
#define kripto_mac_xcbc ref_kripto_mac_xcbc
#define kripto_memory_equals ref_kripto_memory_equals
#define kripto_memory_wipe ref_kripto_memory_wipe
#define kripto_pbkdf2 ref_kripto_pbkdf2
#define kripto_pkcs7_add ref_kripto_pkcs7_add
#define kripto_pkcs7_rem ref_kripto_pkcs7_rem
#define kripto_random_create ref_kripto_random_create
#define kripto_random_destroy ref_kripto_random_destroy
#define kripto_random_gen ref_kripto_random_gen
#define kripto_random_test ref_kripto_random_test
#define kripto_scrypt ref_kripto_scrypt
#define kripto_stream_cbc ref_kripto_stream_cbc
#define kripto_stream_cfb ref_kripto_stream_cfb
#define kripto_stream_chacha ref_kripto_stream_chacha
#define kripto_stream_create ref_kripto_stream_create
#define kripto_stream_ctr ref_kripto_stream_ctr
#define kripto_stream_decrypt ref_kripto_stream_decrypt
#define kripto_stream_destroy ref_kripto_stream_destroy
#define kripto_stream_ecb ref_kripto_stream_ecb
#define kripto_stream_encrypt ref_kripto_stream_encrypt
#define kripto_stream_getdesc ref_kripto_stream_getdesc
#define kripto_stream_keccak1600 ref_kripto_stream_keccak1600
#define kripto_stream_keccak800 ref_kripto_stream_keccak800
#define kripto_stream_maxiv ref_kripto_stream_maxiv
#define kripto_stream_maxkey ref_kripto_stream_maxkey
#define kripto_stream_multof ref_kripto_stream_multof
#define kripto_stream_ofb ref_kripto_stream_ofb
#define kripto_stream_prng ref_kripto_stream_prng
#define kripto_stream_rc4 ref_kripto_stream_rc4
#define kripto_stream_recreate ref_kripto_stream_recreate
#define kripto_stream_salsa20 ref_kripto_stream_salsa20
#define kripto_stream_skein1024 ref_kripto_stream_skein1024
#define kripto_stream_skein256 ref_kripto_stream_skein256
#define kripto_stream_skein512 ref_kripto_stream_skein512
#define kripto_version_major ref_kripto_version_major
#define kripto_version_minor ref_kripto_version_minor
#define kripto_version_revision ref_kripto_version_revision
