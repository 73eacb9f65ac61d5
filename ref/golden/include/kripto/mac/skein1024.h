#ifndef KRIPTO_MAC_SKEIN1024_H
#define KRIPTO_MAC_SKEIN1024_H

extern const kripto_desc_mac *const kripto_mac_skein1024;

#endif
