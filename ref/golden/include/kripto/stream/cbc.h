#ifndef KRIPTO_STREAM_CBC_H
#define KRIPTO_STREAM_CBC_H

extern kripto_desc_stream *kripto_stream_cbc(const kripto_desc_block *block);

#endif
