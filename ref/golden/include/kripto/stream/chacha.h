#ifndef KRIPTO_STREAM_CHACHA_H
#define KRIPTO_STREAM_CHACHA_H

extern const kripto_desc_stream *const kripto_stream_chacha;

#endif
