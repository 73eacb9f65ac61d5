#ifndef KRIPTO_STREAM_SALSA20_H
#define KRIPTO_STREAM_SALSA20_H

extern const kripto_desc_stream *const kripto_stream_salsa20;

#endif
