#ifndef OPENTRACING_SYMBOLS_H
#define OPENTRACING_SYMBOLS_H
#define OPENTRACING_API
#define OPENTRACING_API_EXPORTS
#endif
