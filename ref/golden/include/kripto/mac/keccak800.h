#ifndef KRIPTO_MAC_KECCAK800_H
#define KRIPTO_MAC_KECCAK800_H

extern const kripto_desc_mac *const kripto_mac_keccak800;

#endif
