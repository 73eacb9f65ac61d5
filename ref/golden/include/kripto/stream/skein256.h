#ifndef KRIPTO_STREAM_SKEIN256_H
#define KRIPTO_STREAM_SKEIN256_H

extern const kripto_desc_stream *const kripto_stream_skein256;

#endif
