#ifndef KRIPTO_STREAM_CFB_H
#define KRIPTO_STREAM_CFB_H

extern kripto_desc_stream *kripto_stream_cfb(const kripto_desc_block *block);

#endif
