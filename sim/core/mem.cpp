// Memory: simulated heap, addressability shadow, race detector, access hooks.
#include "internal.h"
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>

uptr exe_lo, exe_hi, exe_base, exe_relro_lo, exe_relro_hi, tls_lo, tls_sz;
const void *tls_init; size_t tls_init_sz;
static uint64_t *exe_shadow; // 4 cells per 8 bytes

#define SHB ((uint8_t *)ASHADOW)
#define SZT ((uint32_t *)SIZES)
#define RSH ((uint64_t *)RSHADOW)

static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
  if (exe_base || tls_sz || exe_hi) return 1;
  exe_base = i->dlpi_addr;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
      uptr lo = i->dlpi_addr + p.p_vaddr;
      if (!exe_lo || lo < exe_lo) exe_lo = lo;
      if (lo + p.p_memsz > exe_hi) exe_hi = lo + p.p_memsz;
    }
    if (p.p_type == PT_GNU_RELRO) { exe_relro_lo = i->dlpi_addr + p.p_vaddr; exe_relro_hi = exe_relro_lo + p.p_memsz; }
    if (p.p_type == PT_TLS) {
      tls_sz = p.p_memsz; tls_lo = (uptr)i->dlpi_tls_data;
      tls_init = (void *)(i->dlpi_addr + p.p_vaddr); tls_init_sz = p.p_filesz;
    }
  }
  return 1;
}
static void *map_at(uptr a, size_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { perror("simulator address space"); _exit(3); }
  return p;
}
void mem_init_global() {
  dl_iterate_phdr(phdr_cb, nullptr);
  if (exe_relro_hi > exe_lo) exe_lo = (exe_relro_hi + 7) & ~7ull; // skip read-only-after-relocation pages
  map_at(BASE, TOTAL);
  map_at(ASHADOW, ARENAS / 8);
  map_at(SIZES, ARENAS / 16 * 4);
  map_at(RSHADOW, TOTAL * 4);
  size_t n = (exe_hi - exe_lo + 8) * 4;
  exe_shadow = (uint64_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void mem_init_run() {
  for (int l = 0; l < MAXLOC; l++) g.bump[l] = BASE + l * ARENA_SZ + 4096;
}

bool in_exe(uptr a) { return a - exe_lo < exe_hi - exe_lo; }

// ---- heap ---------------------------------------------------------------------
void *arena_alloc(size_t n, size_t align) {
  int l = g.cur_loc;
  if (align < 16) align = 16;
  if (n > (512u << 20)) return nullptr;
  uint64_t h = sync_mix(g.heap_phase * 0x10001 + g.seq + (g.bump[l] >> 4));
  uptr a = g.bump[l] + 48 + (g.heap_phase ? (h % 7) * 16 : 0);
  a = (a + align - 1) & ~(uptr)(align - 1);
  uptr end = a + n;
  if (end + 64 > BASE + (l + 1) * ARENA_SZ) {
    snprintf(g.res->why, sizeof g.res->why, "simulated heap exhausted");
    finish(2);
  }
  g.bump[l] = (end + 15) & ~15ull;
  uptr w = (a - BASE) >> 3;
  size_t full = n >> 3;
  memset(SHB + w, 8, full);
  if (n & 7) SHB[w + full] = n & 7;
  SZT[(a - BASE) >> 4] = (uint32_t)n + 1;
  // fresh memory holds garbage: quiet NaNs with payload, or large finite values
  uint64_t pat = (g.heap_phase & 1) ? 0x7ff8badbadbadbadull : 0x4530badbadbadbadull;
  uint64_t *p = (uint64_t *)a;
  for (size_t i = 0; i < full; i++) p[i] = pat;
  if (n & 7) memcpy(p + full, &pat, n & 7);
  g.live++;
  return (void *)a;
}
static inline bool in_arena(uptr a) { return a - BASE < ARENAS; }
void arena_free(void *ptr, const char *how) {
  uptr a = (uptr)ptr;
  uint32_t &s = SZT[(a - BASE) >> 4];
  if ((a & 15) || s == 0) { vio("mem-bad-free", 0, "%s of a pointer that was never allocated", how); return; }
  if (s & 0x80000000u) { vio("mem-double-free", 0, "%s of a block already freed", how); return; }
  size_t n = s - 1;
  s |= 0x80000000u;
  uptr w = (a - BASE) >> 3;
  memset(SHB + w, 0xfd, (n + 7) >> 3);
  uint64_t *p = (uint64_t *)a;
  for (size_t i = 0; i < n >> 3; i++) p[i] = 0x7ff8dddddddddddull;
  g.live--;
}
extern "C" uint64_t sim_live_blocks(void) { return g.live; }
extern "C" void sim_poison_fresh(int) {}

static size_t block_size(void *p) { uint32_t s = SZT[((uptr)p - BASE) >> 4]; return (s & 0x7fffffff) - 1; }

// the block a stray address is next to (for reports)
static void describe(uptr a, char *buf, size_t n) {
  uptr q = a & ~15ull;
  for (int i = 0; i < 1 << 16 && q > BASE; i++, q -= 16) {
    uint32_t s = SZT[(q - BASE) >> 4];
    if (s) {
      size_t sz = (s & 0x7fffffff) - 1;
      snprintf(buf, n, "byte %lld of a %zu-byte%s block", (long long)(a - q), sz, (s >> 31) ? " freed" : "");
      return;
    }
  }
  snprintf(buf, n, "unallocated heap");
}

#define ACTIVE (g.active && g.cur)
extern "C" {
static void *xalloc(size_t n, size_t al, bool may_fail) {
  if (!ACTIVE) return al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n);
  if (may_fail && g.hooks && alloc_fault()) return nullptr;
  return arena_alloc(n ? n : 1, al);
}
static void xfree(void *p, const char *how) {
  if (!p) return;
  if (in_arena((uptr)p)) arena_free(p, how);
  else free(p);
}
SIM_API void *__wrap_malloc(size_t n) { return xalloc(n, 16, true); }
SIM_API void __wrap_free(void *p) { xfree(p, "free"); }
SIM_API void *__wrap_calloc(size_t a, size_t b) { void *p = xalloc(a * b, 16, true); if (p) memset(p, 0, a * b); return p; }
SIM_API void *__wrap_realloc(void *p, size_t n) {
  if (!p) return __wrap_malloc(n);
  if (!in_arena((uptr)p)) return realloc(p, n);
  void *q = xalloc(n, 16, true);
  if (!q) return q;
  size_t o = block_size(p);
  memcpy(q, p, o < n ? o : n);
  arena_free(p, "realloc");
  return q;
}
SIM_API int __wrap_posix_memalign(void **out, size_t al, size_t n) {
  void *p = xalloc(n, al, true);
  if (!p) return 12;
  *out = p;
  return 0;
}
SIM_API void *__wrap_aligned_alloc(size_t al, size_t n) { return xalloc(n, al, true); }
SIM_API void *__wrap_memalign(size_t al, size_t n) { return xalloc(n, al, true); }
SIM_API void *__wrap__mm_malloc(size_t n, size_t al) { return xalloc(n, al, true); }
SIM_API void __wrap__mm_free(void *p) { xfree(p, "_mm_free"); }
}
SIM_API void *operator new(size_t n) { void *p = xalloc(n, 16, true); if (!p) throw std::bad_alloc(); return p; }
SIM_API void *operator new[](size_t n) { void *p = xalloc(n, 16, true); if (!p) throw std::bad_alloc(); return p; }
SIM_API void *operator new(size_t n, std::nothrow_t const &) noexcept { return xalloc(n, 16, true); }
SIM_API void *operator new[](size_t n, std::nothrow_t const &) noexcept { return xalloc(n, 16, true); }
SIM_API void *operator new(size_t n, std::align_val_t a) { void *p = xalloc(n, (size_t)a, true); if (!p) throw std::bad_alloc(); return p; }
SIM_API void *operator new[](size_t n, std::align_val_t a) { void *p = xalloc(n, (size_t)a, true); if (!p) throw std::bad_alloc(); return p; }
SIM_API void operator delete(void *p) noexcept { xfree(p, "delete"); }
SIM_API void operator delete[](void *p) noexcept { xfree(p, "delete[]"); }
SIM_API void operator delete(void *p, size_t) noexcept { xfree(p, "delete"); }
SIM_API void operator delete[](void *p, size_t) noexcept { xfree(p, "delete[]"); }
SIM_API void operator delete(void *p, std::align_val_t) noexcept { xfree(p, "delete"); }
SIM_API void operator delete[](void *p, std::align_val_t) noexcept { xfree(p, "delete[]"); }
SIM_API void operator delete(void *p, size_t, std::align_val_t) noexcept { xfree(p, "delete"); }
SIM_API void operator delete[](void *p, size_t, std::align_val_t) noexcept { xfree(p, "delete[]"); }
SIM_API void operator delete(void *p, std::nothrow_t const &) noexcept { xfree(p, "delete"); }
SIM_API void operator delete[](void *p, std::nothrow_t const &) noexcept { xfree(p, "delete[]"); }

// ---- race shadow -------------------------------------------------------------------
// cell: clk 32 | slot 8 | off 3 | size-1 3 | write 1 | atomic 1 | used 1
static inline uint64_t mk(uint32_t clk, int slot, int off, int sz, bool w, bool at) {
  return ((uint64_t)clk << 32) | ((uint64_t)slot << 16) | (off << 8) | ((sz - 1) << 4) | (w << 1) | (at << 2) | 1;
}
static void race_report(uptr a, bool write, uint64_t c, uptr pc, bool isexe) {
  char buf[160];
  if (in_arena(a)) describe(a, buf, sizeof buf);
  else snprintf(buf, sizeof buf, isexe ? "a global or static variable" : "a local variable of another task");
  vio("race", pc, "%s of %s by task %llu (%s, locality %d) is concurrent with an earlier %s", write ? "write" : "read", buf,
      (unsigned long long)g.cur->id, g.cur->name, g.cur->loc, (c >> 1) & 1 ? "write" : "read");
}
static inline void race_word(uint64_t *cell, uptr a, int off, int sz, bool write, bool at, uptr pc, bool isexe) {
  Task *t = g.cur;
  int slot = t->slot;
  uint32_t clk = t->vc.c[slot];
  uint64_t me = mk(clk, slot, off, sz, write, at);
  if (cell[0] == me || cell[1] == me || cell[2] == me || cell[3] == me) return;
  int place = -1;
  for (int i = 0; i < 4; i++) {
    uint64_t c = cell[i];
    if (!(c & 1)) { if (place < 0) place = i; break; }
    int cs = (c >> 16) & 255;
    int co = (c >> 8) & 7, cz = ((c >> 4) & 7) + 1;
    bool overlap = co < off + sz && off < co + cz;
    if (cs == slot) {
      // same task: this access supersedes an older, not stronger one on the same bytes
      if (co == off && cz == sz && (write || !((c >> 1) & 1))) { if (place < 0) place = i; }
      continue;
    }
    uint32_t cc = (uint32_t)(c >> 32);
    bool ordered = cc <= t->vc.c[cs];
    if (overlap && !ordered && (write || ((c >> 1) & 1)) && !(at && ((c >> 2) & 1))) {
      if (!isexe || cs / g.slots_per_loc == slot / g.slots_per_loc) race_report(a, write, c, pc, isexe);
    }
    if (ordered && write && overlap && co >= off && co + cz <= off + sz && place < 0) place = i;
  }
  if (place < 0) {
    // prefer to drop an ordered cell, then a deterministic victim
    for (int i = 0; i < 4 && place < 0; i++) {
      uint64_t c = cell[i];
      if ((uint32_t)(c >> 32) <= t->vc.c[(c >> 16) & 255] && !((c >> 1) & 1)) place = i;
    }
    if (place < 0) place = (int)((g.steps >> 1) & 3);
  }
  cell[place] = me;
}
static void race_range(uptr a, size_t n, bool w, bool at, uptr pc) {
  uint64_t *base; uptr rel; bool isexe = false;
  if (a - BASE < TOTAL) { base = RSH; rel = a - BASE; }
  else if (a - exe_lo < exe_hi - exe_lo) { base = exe_shadow; rel = a - exe_lo; isexe = true; }
  else return;
  while (n) {
    int off = rel & 7;
    int sz = 8 - off; if ((size_t)sz > n) sz = (int)n;
    race_word(base + (rel >> 3) * 4, a, off, sz, w, at, pc, isexe);
    rel += sz; a += sz; n -= sz;
  }
}

static void addr_check(uptr a, size_t n, bool w, uptr pc) {
  uptr rel = a - BASE;
  for (size_t left = n; left;) {
    int off = rel & 7;
    size_t sz = 8 - off; if (sz > left) sz = left;
    uint8_t s = SHB[rel >> 3];
    if (s == 0xfd || (size_t)off + sz > s) {
      char buf[160]; describe(BASE + rel, buf, sizeof buf);
      vio(s == 0xfd ? "mem-use-after-free" : "mem-out-of-bounds", pc, "%s of %zu bytes at %s (task %s)", w ? "write" : "read", n, buf, g.cur->name);
      return;
    }
    rel += sz; left -= sz;
  }
}

static inline void do_access(uptr a, size_t n, bool w, bool at, uptr pc) {
  uptr rel = a - BASE;
  if (rel < ARENAS) {
    int loc = (int)(rel / ARENA_SZ);
    if (__builtin_expect(!(SHB[rel >> 3] == 8 && (rel & 7) + n <= 8), 0)) addr_check(a, n, w, pc);
    if (__builtin_expect(loc != g.cur_loc, 0)) {
      vio("isolation", pc, "%s by locality %d of memory owned by locality %d (task %s)", w ? "write" : "read", g.cur_loc, loc, g.cur->name);
      return;
    }
  } else if (rel < TOTAL) {
    Task *t = g.cur;
    if (a - t->stk_lo < t->stk_hi - t->stk_lo) { if (a < t->stk_min) t->stk_min = a; }
    else {
      uptr r = a - SS_BASE;
      int i = r < SSTACK * NSSTACK ? (int)(r / SSTACK) : NSSTACK + (int)((a - BS_BASE) / BSTACK);
      Task *o = g.stack_owner[i];
      if (!o || a + 128 < (uptr)o->sp) {
        vio("mem-use-after-scope", pc, "%s by task %s of a local variable whose scope has ended", w ? "write" : "read", t->name);
        return;
      }
      if (o->loc != g.cur_loc) {
        vio("isolation", pc, "%s by locality %d of a stack variable of locality %d", w ? "write" : "read", g.cur_loc, o->loc);
        return;
      }
    }
  }
  race_range(a, n, w, at, pc);
}
void mem_access(uptr a, size_t n, bool w, bool at, uptr pc) {
  if (!g.hooks) return;
  if (++g.steps >= g.deadline) preempt_point();
  do_access(a, n, w, at, pc);
}
void stack_recycle(Task *t) {
  uptr lo = t->stk_min & ~7ull, hi = t->stk_hi;
  if (lo < hi) memset((char *)RSHADOW + (lo - BASE) * 4, 0, (hi - lo) * 4);
}

static omap<uptr, sim_sync *> *amap;
sim_sync *async_of(uptr a) {
  if (!amap) { amap = (omap<uptr, sim_sync *> *)malloc(sizeof *amap); new (amap) omap<uptr, sim_sync *>(); }
  sim_sync *&s = (*amap)[a];
  if (!s) s = sim_sync_new();
  return s;
}
#define PC ((uptr)__builtin_return_address(0) - 1)
#define HOT static inline __attribute__((always_inline))
HOT void hook(void *p, size_t n, bool w, uptr pc) { if (g.hooks) mem_access((uptr)p, n, w, false, pc); }

extern "C" {
SIM_API void sim_read(const void *p, size_t n) { hook((void *)p, n, false, PC); }
SIM_API void sim_write(void *p, size_t n) { hook(p, n, true, PC); }
SIM_API void __tsan_init() {}
SIM_API void __tsan_func_entry(void *) {}
SIM_API void __tsan_func_exit() {}
#define RW(sz) \
  SIM_API void __tsan_read##sz(void *p) { hook(p, sz, false, PC); } \
  SIM_API void __tsan_write##sz(void *p) { hook(p, sz, true, PC); } \
  SIM_API void __tsan_read##sz##_pc(void *p, void *pc) { hook(p, sz, false, (uptr)pc); } \
  SIM_API void __tsan_write##sz##_pc(void *p, void *pc) { hook(p, sz, true, (uptr)pc); } \
  SIM_API void __tsan_volatile_read##sz(void *p) { hook(p, sz, false, PC); } \
  SIM_API void __tsan_volatile_write##sz(void *p) { hook(p, sz, true, PC); } \
  SIM_API void __tsan_unaligned_volatile_read##sz(void *p) { hook(p, sz, false, PC); } \
  SIM_API void __tsan_unaligned_volatile_write##sz(void *p) { hook(p, sz, true, PC); } \
  SIM_API void __tsan_unaligned_read##sz(void *p) { hook(p, sz, false, PC); } \
  SIM_API void __tsan_unaligned_write##sz(void *p) { hook(p, sz, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
SIM_API void __tsan_read_range(void *p, size_t n) { hook(p, n, false, PC); }
SIM_API void __tsan_write_range(void *p, size_t n) { hook(p, n, true, PC); }
SIM_API void __tsan_vptr_update(void **p, void *) { if (g.hooks) { uptr a = (uptr)p; if (in_arena(a)) addr_check(a, 8, true, PC); } }
SIM_API void __tsan_vptr_read(void **p) { if (g.hooks) { uptr a = (uptr)p; if (in_arena(a)) addr_check(a, 8, false, PC); } }

SIM_API void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (n) { hook((void *)s, n, false, PC); hook(d, n, true, PC); }
  return memmove(d, s, n);
}
SIM_API void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (n) { hook((void *)s, n, false, PC); hook(d, n, true, PC); }
  return memmove(d, s, n);
}
SIM_API void *__wrap_memset(void *d, int c, size_t n) {
  if (n) hook(d, n, true, PC);
  return memset(d, c, n);
}
SIM_API int __wrap_memcmp(const void *a, const void *b, size_t n) {
  if (n) { hook((void *)a, n, false, PC); hook((void *)b, n, false, PC); }
  return memcmp(a, b, n);
}

// ---- atomics: sequentially consistent execution, happens-before by memory order ------
// memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
HOT void at_pre(void *p, size_t n, bool w, int mo, uptr pc) {
  if (!g.hooks) return;
  mem_access((uptr)p, n, w, true, pc);
  if (w && mo >= 3) hb_release(async_of((uptr)p));
}
HOT void at_post(void *p, int mo) {
  if (!g.hooks) return;
  if (mo == 1 || mo == 2 || mo >= 4) hb_acquire(async_of((uptr)p));
}
#define ATOM(bits, T) \
  SIM_API T __tsan_atomic##bits##_load(const volatile T *p, int mo) { at_pre((void *)p, sizeof(T), false, mo, PC); T v = *p; at_post((void *)p, mo); return v; } \
  SIM_API void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, mo, PC); *p = v; } \
  SIM_API T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, mo, PC); T o = *p; *p = v; at_post((void *)p, mo); return o; } \
  SIM_API T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, mo, PC); T o = *p; *p = o + v; at_post((void *)p, mo); return o; } \
  SIM_API T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, mo, PC); T o = *p; *p = o - v; at_post((void *)p, mo); return o; } \
  SIM_API T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, mo, PC); T o = *p; *p = o & v; at_post((void *)p, mo); return o; } \
  SIM_API T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, mo, PC); T o = *p; *p = o | v; at_post((void *)p, mo); return o; } \
  SIM_API T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, mo, PC); T o = *p; *p = o ^ v; at_post((void *)p, mo); return o; } \
  SIM_API T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { at_pre((void *)p, sizeof(T), true, mo, PC); T o = *p; *p = ~(o & v); at_post((void *)p, mo); return o; } \
  SIM_API int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { at_pre((void *)p, sizeof(T), true, mo, PC); T o = *p; at_post((void *)p, mo); if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
  SIM_API int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { at_pre((void *)p, sizeof(T), true, mo, PC); T o = *p; at_post((void *)p, mo); if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
  SIM_API T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { at_pre((void *)p, sizeof(T), true, mo, PC); T o = *p; at_post((void *)p, mo); if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
ATOM(128, unsigned __int128)
SIM_API void __tsan_atomic_thread_fence(int) {
  if (!g.hooks) return;
  sim_sync *s = async_of(1); hb_release(s); hb_acquire(s);
}
SIM_API void __tsan_atomic_signal_fence(int) {}
}

// ---- subscripts of arrays of a known size ---------------------------------------
extern "C" __attribute__((visibility("default"))) void sim_index(unsigned long index, unsigned long size) {
  if (!g.cur) return;
  vio("mem-out-of-bounds", (uptr)__builtin_return_address(0), "index %ld of an array of %lu elements (task %s)", (long)index, size, g.cur->name);
}
extern "C" __attribute__((visibility("default"))) void __ubsan_handle_out_of_bounds(void *, unsigned long index) {
  if (!g.cur) return;
  vio("mem-out-of-bounds", (uptr)__builtin_return_address(0), "index %ld of a smaller array (task %s)", (long)index, g.cur->name);
}
