// Shared by the hash checks: messages, and very long messages in little memory.
#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include "lib.h"
extern "C" {
#include "sha512.h"
#include "sha3.h"
void sha512_2w_avx(uint8_t *message_2x[2], size_t message_length, uint8_t *digest_2x[2]);
void sha512_2w_avx_256b(uint8_t *message_2x[2], uint8_t *digest_2x[2]) __attribute__((weak));
HashReturn Hash2(int hashbitlen, const BitSequence *data, DataLength databitlen, BitSequence *hashval, int d) __attribute__((weak));
}
// the fixed byte stream all messages are prefixes of
inline const Bytes &stream() { static Bytes b = gen("stream", 0, 1 << 16); return b; }
// message contents: 0 stream, 1 zeros, 2 ones, 3 0x80.., 4 0x5a.., others generic
inline Bytes content(u64 c, u64 n) { switch (c) { case 0: { Bytes b(stream().begin(), stream().begin() + (n < 65536 ? n : 65536)); b.resize(n); for (u64 i = 65536; i < n; i++) b[i] = b[i - 65536] ^ (u8)(i >> 16); return b; } case 1: return Bytes(n, 0); case 2: return Bytes(n, 255); case 3: return Bytes(n, 0x80); case 4: { Bytes b(n); for (u64 i = 0; i < n; i++) b[i] = i * 7 + 3; return b; } default: return gen("content", c, n); } }
static const u64 NCONTENT = 5;
// n readable bytes whose contents repeat every MiB (one MiB of memory behind them)
struct Huge {
  u8 *p = nullptr; u64 n; static const u64 M = 1 << 20;
  Huge(u64 n_, int seed) : n(n_) {
    int fd = memfd_create("huge", 0); if (fd < 0) return; Bytes b = gen("huge", seed, M); if (write(fd, b.data(), M) != (ssize_t)M) { close(fd); return; }
    u64 t = (n + M - 1) / M; u8 *q = (u8 *)mmap(nullptr, t * M, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (q == MAP_FAILED) { close(fd); return; }
    for (u64 i = 0; i < t; i++) if (mmap(q + i * M, M, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { munmap(q, t * M); close(fd); return; }
    p = q; close(fd);
  }
  ~Huge() { if (p) munmap(p, (n + M - 1) / M * M); }
};
