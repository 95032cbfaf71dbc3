/* the real MD4, with accessors to the context's fields for the contracts */
#include "src/md4.c"
MD4_u32plus *acc_word(MD4_CTX *c, int i) { MD4_u32plus *w[] = {&c->a, &c->b, &c->c, &c->d}; return w[i]; }
MD4_u32plus *acc_lo(MD4_CTX *c) { return &c->lo; }
MD4_u32plus *acc_hi(MD4_CTX *c) { return &c->hi; }
unsigned char *acc_buffer(MD4_CTX *c) { return c->buffer; }
unsigned long acc_sizeof(void) { return sizeof(MD4_CTX); }
