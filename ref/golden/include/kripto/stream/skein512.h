#ifndef KRIPTO_STREAM_SKEIN512_H
#define KRIPTO_STREAM_SKEIN512_H

extern const kripto_desc_stream *const kripto_stream_skein512;

#endif
