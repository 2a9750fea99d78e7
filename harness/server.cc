// Replay driver: runs harness functions of the real (natively compiled) code on
// concrete argument buffers read from a request file.
#include <dlfcn.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <string>
#include <vector>
typedef uint64_t (*F)(void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*);
static uint32_t u32(FILE* f) { uint32_t x = 0; if (fread(&x, 4, 1, f) != 1) _exit(0); return x; }
int main(int argc, char** argv) {
  FILE* in = fopen(argv[1], "rb");
  FILE* out = fopen(argv[2], "wb");
  if (!in || !out) return 3;
  if (argc > 3) {
    int d = open("/dev/null", O_RDWR);
    dup2(d, 1); dup2(d, 2);
  }
  unsigned tmo = argc > 4 ? atoi(argv[4]) : 20;
  while (true) {
    uint32_t nl = u32(in);
    std::string name(nl, 0);
    if (fread(&name[0], 1, nl, in) != nl) return 0;
    uint32_t na = u32(in);
    void* p[20] = {0};
    std::vector<uint32_t> lens;
    for (uint32_t i = 0; i < na; ++i) {
      uint32_t l = u32(in);
      lens.push_back(l);
      p[i] = aligned_alloc(64, (l + 64 + 63) / 64 * 64);
      if (l && fread(p[i], 1, l, in) != l) return 0;
      memset((char*)p[i] + l, 0xA5, 32);
    }
    F fn = (F)dlsym(RTLD_DEFAULT, name.c_str());
    uint32_t st = 0;
    uint64_t r = 0;
    if (!fn) st = 1;
    else {
      alarm(tmo);
      r = fn(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15], p[16], p[17], p[18], p[19]);
      alarm(0);
    }
    for (uint32_t i = 0; i < na; ++i)
      for (int k = 0; k < 32; ++k)
        if (((unsigned char*)p[i])[lens[i] + k] != 0xA5) st = 2;
    fwrite(&st, 4, 1, out);
    fwrite(&r, 8, 1, out);
    for (uint32_t i = 0; i < na; ++i) fwrite(p[i], 1, lens[i], out);
    fflush(out);
    for (uint32_t i = 0; i < na; ++i) free(p[i]);
  }
}
