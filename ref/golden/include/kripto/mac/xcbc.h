#ifndef KRIPTO_MAC_XCBC_H
#define KRIPTO_MAC_XCBC_H

extern kripto_desc_mac *kripto_mac_xcbc(const kripto_desc_block *block);

#endif
