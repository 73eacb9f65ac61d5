#ifndef KRIPTO_MAC_KECCAK1600_H
#define KRIPTO_MAC_KECCAK1600_H

extern const kripto_desc_mac *const kripto_mac_keccak1600;

#endif
