#define assert(x) ((void)(x))
