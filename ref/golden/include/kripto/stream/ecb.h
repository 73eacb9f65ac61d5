#ifndef KRIPTO_STREAM_ECB_H
#define KRIPTO_STREAM_ECB_H

extern kripto_desc_stream *kripto_stream_ecb(const kripto_desc_block *block);

#endif
