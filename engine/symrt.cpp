#include <sys/uio.h>
// Runtime for the dynamic symbolic execution engine: tracing (child side), exploration and
// solving (worker side).  One binary = instrumented code under test + harness + this file + Z3.
#include "symrt.h"
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <sched.h>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <map>
#include <set>
typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8; typedef uint16_t u16;

enum { OP_ADD = 1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR,
       OP_AND, OP_OR, OP_XOR, OP_EQ, OP_NE, OP_ULT, OP_ULE, OP_UGT, OP_UGE, OP_SLT, OP_SLE, OP_SGT, OP_SGE,
       OP_ZEXT, OP_SEXT, OP_TRUNC, OP_CONST, OP_VAR, OP_EXTRACT, OP_CONCAT, OP_ITE };

static const u32 MAXNODE = 3u << 20, MAXCON = 1u << 18, MAXV = 160, HS = 1u << 21;
struct Node { u8 op, bits; u16 pad; u32 a, b, c; u64 k; };
struct Con { u32 node; u32 kind; u64 val; };  // kind 0: boolean branch (val = direction), 1: concretisation (val = value)
struct VarInfo { char name[28]; u32 bits; u64 lo, hi; };
struct Trace {
  u32 nnodes, ncons, nvars, status;  // status: 0 running 1 ok 2 reject 3 fail 4 limit
  u32 nontrivial;
  VarInfo vars[MAXV];
  char msg[2000]; char note[3000];
  Con cons[MAXCON];
  Node nodes[MAXNODE];
};
struct Input { u32 n, pos; u32 v[MAXV]; };
struct Viol { u32 kind; u32 n; u32 v[MAXV]; u32 nv; VarInfo vars[MAXV]; char msg[2000]; char note[1500]; };
static const u32 MAXVIOL = 48, NSAMP = 24;
struct Shared {
  volatile int lock;
  volatile u64 qn; volatile int active; volatile int stop;
  volatile u64 paths, rejected, failed, crashed, timeouts, limits, soft, nontriv, queries, implied, sat, unsat, unknown, cache, conq, dropped, diverge, infeasible, solver_us, maxcons, sumcons;
  volatile u32 nviol, nhard, nsamp, nvmax;
  Viol viol[MAXVIOL];
  char samp[NSAMP][3000];
};
static u64 QCAP = 1500000;
static Shared *SH; static Input *Q; static Trace *T;

// ------------------------------------------------------------------ child side
extern "C" { u32 **_sym_dir; u32 _sym_args[64]; u32 _sym_ret, _sym_va; }
static u32 *HT; static const Input *CurIn; static std::map<std::string, std::string> *Params;
static bool Tracing = false;
static jmp_buf RunBuf[16]; static int RunDepth = 0;
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=66:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=3:symbolize=0:print_legend=0:print_full_thread_history=0:quarantine_size_mb=4:thread_local_quarantine_size_kb=64:detect_odr_violation=0:max_allocation_size_mb=2048"; }

static void finish(int st, const char *msg) {
  T->status = st;
  if (msg) { strncpy(T->msg, msg, sizeof T->msg - 1); T->msg[sizeof T->msg - 1] = 0; }
  _exit(0);
}
static inline u64 mask(u64 v, u32 bits) { return bits >= 64 ? v : v & ((1ull << bits) - 1); }
static u32 mk(u8 op, u8 bits, u32 a, u32 b, u32 c, u64 k) {
  u64 h = op * 0x9E3779B97F4A7C15ull ^ bits * 0xff51afd7ed558ccdull ^ (u64)a * 0xc4ceb9fe1a85ec53ull ^ (u64)b * 0xD6E8FEB86659FD93ull ^ (u64)c * 0xA0761D6478BD642Full ^ k * 0xE7037ED1A0B428DBull;
  h ^= h >> 29; h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
  u32 i = (u32)h & (HS - 1);
  while (HT[i]) {
    Node &n = T->nodes[HT[i]];
    if (n.op == op && n.bits == bits && n.a == a && n.b == b && n.c == c && n.k == k) return HT[i];
    i = (i + 1) & (HS - 1);
  }
  if (T->nnodes + 1 >= MAXNODE || T->nnodes > HS / 2 + HS / 4) finish(4, "expression table full");
  u32 id = ++T->nnodes;
  T->nodes[id] = Node{op, bits, 0, a, b, c, k};
  HT[i] = id;
  return id;
}
static u32 cst(u64 v, u32 bits) { return mk(OP_CONST, bits, 0, 0, 0, mask(v, bits)); }
static inline Node &N(u32 i) { return T->nodes[i]; }
static inline bool isC(u32 i) { return N(i).op == OP_CONST; }
static u32 mkExtract(u32 a, u32 lo, u32 bits) {
  if (lo == 0 && N(a).bits == bits) return a;
  Node n = N(a);
  if (n.op == OP_CONST) return cst(n.k >> lo, bits);
  if (n.op == OP_EXTRACT) return mkExtract(n.a, lo + (u32)n.k, bits);
  if (n.op == OP_ZEXT) {
    u32 w = N(n.a).bits;
    if (lo >= w) return cst(0, bits);
    if (lo + bits <= w) return mkExtract(n.a, lo, bits);
    if (lo == 0) return mk(OP_ZEXT, bits, n.a, 0, 0, 0);
  }
  if (n.op == OP_SEXT && lo == 0) {
    u32 w = N(n.a).bits;
    if (bits <= w) return mkExtract(n.a, 0, bits);
    return mk(OP_SEXT, bits, n.a, 0, 0, 0);
  }
  if (n.op == OP_CONCAT) {  // a = high, b = low
    u32 lw = N(n.b).bits;
    if (lo + bits <= lw) return mkExtract(n.b, lo, bits);
    if (lo >= lw) return mkExtract(n.a, lo - lw, bits);
  }
  return mk(OP_EXTRACT, bits, a, 0, 0, lo);
}
static u32 mkConcat(u32 hi, u32 lo) {
  Node h = N(hi), l = N(lo); u32 bits = h.bits + l.bits;
  if (h.op == OP_CONST && l.op == OP_CONST) return cst(h.k << l.bits | l.k, bits);
  if (h.op == OP_CONST && h.k == 0) return mk(OP_ZEXT, bits, (l.op == OP_ZEXT) ? l.a : lo, 0, 0, 0);
  if (h.op == OP_EXTRACT && l.op == OP_EXTRACT && h.a == l.a && h.k == l.k + l.bits) return mkExtract(l.a, (u32)l.k, bits);
  if (h.op == OP_EXTRACT && h.a == lo && h.k == l.bits) return mkExtract(lo, 0, bits);
  return mk(OP_CONCAT, bits, hi, lo, 0, 0);
}
static u32 mkNot(u32 a) { if (isC(a)) return cst(!N(a).k, 1); Node n = N(a);
  switch (n.op) { case OP_EQ: return mk(OP_NE, 1, n.a, n.b, 0, 0); case OP_NE: return mk(OP_EQ, 1, n.a, n.b, 0, 0);
    case OP_XOR: if (isC(n.b) && n.bits == 1) return N(n.b).k ? n.a : a; break;
    case OP_ULT: return mk(OP_ULE, 1, n.b, n.a, 0, 0); case OP_ULE: return mk(OP_ULT, 1, n.b, n.a, 0, 0);
    case OP_SLT: return mk(OP_SLE, 1, n.b, n.a, 0, 0); case OP_SLE: return mk(OP_SLT, 1, n.b, n.a, 0, 0); }
  return mk(OP_XOR, 1, a, cst(1, 1), 0, 0); }
static int64_t sx(u64 v, u32 bits) { return bits >= 64 ? (int64_t)v : (int64_t)(v << (64 - bits)) >> (64 - bits); }
static u64 fold(u32 op, u64 a, u64 b, u32 bits) {
  u64 m = ~0ull; (void)m;
  switch (op) {
    case OP_ADD: return mask(a + b, bits); case OP_SUB: return mask(a - b, bits); case OP_MUL: return mask(a * b, bits);
    case OP_UDIV: return b ? a / b : mask(~0ull, bits); case OP_UREM: return b ? a % b : a;
    case OP_SDIV: { int64_t x = sx(a, bits), y = sx(b, bits); if (!y) return x < 0 ? 1 : mask(~0ull, bits); if (y == -1) return mask(-x, bits); return mask(x / y, bits); }
    case OP_SREM: { int64_t x = sx(a, bits), y = sx(b, bits); if (!y) return a; if (y == -1) return 0; return mask(x % y, bits); }
    case OP_SHL: return b >= bits ? 0 : mask(a << b, bits); case OP_LSHR: return b >= bits ? 0 : a >> b;
    case OP_ASHR: return mask(sx(a, bits) >> (b >= bits ? bits - 1 : b), bits);
    case OP_AND: return a & b; case OP_OR: return a | b; case OP_XOR: return a ^ b;
    case OP_EQ: return a == b; case OP_NE: return a != b; case OP_ULT: return a < b; case OP_ULE: return a <= b;
    case OP_SLT: return sx(a, bits) < sx(b, bits); case OP_SLE: return sx(a, bits) <= sx(b, bits);
  }
  return 0;
}
static u32 mkBin(u32 op, u32 a, u32 b, u32 bits) {
  if (op == OP_UGT) { op = OP_ULT; std::swap(a, b); } else if (op == OP_UGE) { op = OP_ULE; std::swap(a, b); }
  else if (op == OP_SGT) { op = OP_SLT; std::swap(a, b); } else if (op == OP_SGE) { op = OP_SLE; std::swap(a, b); }
  bool cmp = op >= OP_EQ; u32 rb = cmp ? 1 : bits;
  if (isC(a) && isC(b)) return cst(fold(op, N(a).k, N(b).k, bits), rb);
  if ((op == OP_ADD || op == OP_AND || op == OP_OR || op == OP_XOR || op == OP_MUL || op == OP_EQ || op == OP_NE) && isC(a)) std::swap(a, b);
  if (isC(b)) {
    u64 k = N(b).k;
    switch (op) {
      case OP_ADD: if (!k) return a;
        if (N(a).op == OP_ADD && isC(N(a).b)) return mkBin(OP_ADD, N(a).a, cst(N(N(a).b).k + k, bits), bits);
        break;
      case OP_SUB: if (!k) return a; return mkBin(OP_ADD, a, cst(0 - k, bits), bits);
      case OP_OR: case OP_XOR: if (!k) return a; if (op == OP_XOR && bits == 1) return mkNot(a); break;
      case OP_SHL: case OP_LSHR: case OP_ASHR: if (!k) return a;
        if (op == OP_SHL && k < bits) return mkBin(OP_MUL, a, cst(1ull << k, bits), bits);
        break;
      case OP_MUL: if (k == 1) return a; if (!k) return b; break;
      case OP_AND: if (!k) return b; if (k == mask(~0ull, bits)) return a;
        if (N(a).op == OP_ZEXT) { u32 w = N(N(a).a).bits; if (mask(~0ull, w) == (k & mask(~0ull, w))) return a; }
        break;
      case OP_EQ: case OP_NE: {
        Node n = N(a);
        if (bits == 1) { bool want = (op == OP_EQ) == (k == 1); return want ? a : mkNot(a); }
        if (n.op == OP_ZEXT) {
          u32 w = N(n.a).bits;
          if (k != mask(k, w)) return cst(op == OP_NE, 1);
          return mkBin(op, n.a, cst(k, w), w);
        }
        if (n.op == OP_SEXT) {
          u32 w = N(n.a).bits;
          if (mask(sx(mask(k, w), w), bits) != k) return cst(op == OP_NE, 1);
          return mkBin(op, n.a, cst(k, w), w);
        }
        if (n.op == OP_ADD && isC(n.b)) return mkBin(op, n.a, cst(k - N(n.b).k, bits), bits);
        if (n.op == OP_ITE && isC(n.b) && isC(n.c)) {
          bool t = (N(n.b).k == k), f = (N(n.c).k == k);
          if (op == OP_NE) { t = !t; f = !f; }
          if (t && f) return cst(1, 1); if (!t && !f) return cst(0, 1);
          return t ? n.a : mkNot(n.a);
        }
        break;
      }
    }
  }
  if (a == b) switch (op) { case OP_EQ: case OP_ULE: case OP_SLE: return cst(1, 1); case OP_NE: case OP_ULT: case OP_SLT: return cst(0, 1); case OP_SUB: case OP_XOR: return cst(0, bits); case OP_AND: case OP_OR: return a; }
  return mk(op, rb, a, b, 0, 0);
}
static inline u32 unC(u32 n) { return isC(n) ? 0 : n; }  // constant nodes travel as "concrete"
// Per-path memory of already recorded conditions is kept in a bitmap over node ids.
static u8 *Seen;
static void record(u32 node, u32 kind, u64 val) {
  if (isC(node)) return;
  if (kind == 0) { Node n = N(node); if (n.op == OP_XOR && n.bits == 1 && isC(n.b) && N(n.b).k) { record(n.a, 0, !val); return; }
    if (n.op == OP_NE) { u32 e = mk(OP_EQ, 1, n.a, n.b, 0, 0); record(e, 0, !val); return; } }
  if (Seen[node]) return;
  Seen[node] = 1;
  if (T->ncons >= MAXCON) finish(4, "too many path constraints");
  T->cons[T->ncons++] = Con{node, kind, val};
}
extern "C" {
u32 _sl_bin(u32 op, u64 a, u32 sa, u64 b, u32 sb, u32 bits) {
  if (!sa) sa = cst(a, bits); if (!sb) sb = cst(b, bits);
  return unC(mkBin(op, sa, sb, bits));
}
u32 _sl_cast(u32 op, u32 s, u32 f, u32 t) {
  if (op == OP_TRUNC) return unC(mkExtract(s, 0, t));
  Node n = N(s);
  if (n.op == OP_ZEXT && op == OP_ZEXT) return mk(OP_ZEXT, t, n.a, 0, 0, 0);
  if (n.op == OP_ZEXT && op == OP_SEXT) return mk(OP_ZEXT, t, n.a, 0, 0, 0);
  if (n.op == OP_SEXT && op == OP_SEXT) return mk(OP_SEXT, t, n.a, 0, 0, 0);
  if (n.op == OP_ITE && isC(n.b) && isC(n.c)) {
    u64 x = N(n.b).k, y = N(n.c).k; if (op == OP_SEXT) { x = mask(sx(x, f), t); y = mask(sx(y, f), t); }
    return mk(OP_ITE, t, n.a, cst(x, t), cst(y, t), 0);
  }
  return mk(op, t, s, 0, 0, 0);
}
static inline u32 *page(u64 a, bool create) {
  u32 *p = _sym_dir[a >> 16];
  if (!p && create) {
    p = (u32 *)mmap(0, 65536 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) finish(4, "shadow memory");
    _sym_dir[a >> 16] = p;
  }
  return p;
}
static inline u32 getsh(u64 a) { u32 *p = _sym_dir[a >> 16]; return p ? p[a & 0xffff] : 0; }
static inline void setsh(u64 a, u32 s) { u32 *p = page(a, s != 0); if (p) p[a & 0xffff] = s; }
u32 _sl_load(void *p, u32 n, u64 v) {
  u64 a = (u64)p; u32 s[8]; u32 any = 0;
  for (u32 i = 0; i < n; i++) any |= s[i] = getsh(a + i);
  if (!any) return 0;
  u32 r = s[0] ? s[0] : cst(v, 8);
  for (u32 i = 1; i < n; i++) { u32 b = s[i] ? s[i] : cst(v >> (8 * i), 8); r = mkConcat(b, r); }
  return unC(r);
}

// ---- loads through symbolic addresses: when the address depends on one variable of small range, the loaded
// value is the table of what lies at each address the path condition still allows; otherwise the address is fixed.
}
static std::vector<std::vector<std::pair<u32, u64>>> *VCons; static std::unordered_map<u32, u64 *> *Tab; static std::unordered_map<u32, int> *OneVar; static std::vector<u32> *CPos; static bool SymLoads = true;
static int onevar(u32 id) {  // the only variable of a node; -1 none, -2 several or of large range
  Node n = N(id);
  if (n.op == OP_CONST) return -1;
  if (n.op == OP_VAR) return T->vars[n.a].hi - T->vars[n.a].lo < 256 ? (int)n.a : -2;
  auto it = OneVar->find(id); if (it != OneVar->end()) return it->second;
  int r = -1; u32 ch[3] = {n.a, n.b, n.c};
  for (u32 x : ch) if (x && r != -2) { int q = onevar(x); if (q == -1) continue; if (r == -1) r = q; else if (r != q) r = -2; }
  (*OneVar)[id] = r; return r;
}
static u64 *table(u32 id, u64 lo, u32 cnt) {
  auto it = Tab->find(id); if (it != Tab->end()) return it->second;
  Node n = N(id); u64 *t = (u64 *)malloc(cnt * 8), *a = n.op != OP_VAR && n.op != OP_CONST && n.a ? table(n.a, lo, cnt) : 0, *b = a && n.b ? table(n.b, lo, cnt) : 0, *c = a && n.c ? table(n.c, lo, cnt) : 0;
  for (u32 i = 0; i < cnt; i++) switch (n.op) {
    case OP_CONST: t[i] = n.k; break; case OP_VAR: t[i] = lo + i; break; case OP_ZEXT: t[i] = a[i]; break;
    case OP_SEXT: t[i] = mask(sx(a[i], N(n.a).bits), n.bits); break; case OP_EXTRACT: t[i] = mask(a[i] >> n.k, n.bits); break;
    case OP_CONCAT: t[i] = a[i] << N(n.b).bits | b[i]; break; case OP_ITE: t[i] = a[i] ? b[i] : c[i]; break;
    default: t[i] = fold(n.op, a[i], b[i], N(n.a).bits); }
  (*Tab)[id] = t; return t;
}
extern "C" {
u32 _sl_ite(u32 c, u32 sc, u64 a, u32 sa, u64 b, u32 sb, u32 bits);
void *__asan_region_is_poisoned(void *, size_t) __attribute__((weak));
void _sl_conc(u64 v, u32 s, u32 bits);
static bool mapped(u64 a, u32 n) {
  if (a < 0x10007fff8000ull || a >= 0x7ffffffff000ull) return false;
  char buf[16]; struct iovec l = {buf, n}, r = {(void *)a, n};
  return n <= 16 && process_vm_readv(getpid(), &l, 1, &r, 1, 0) == (ssize_t)n;
}
u32 _sl_loadsym(void *p, u32 sp, u32 n, u64 val) {
  u64 pa = (u64)p; int x;
  if (!SymLoads || (x = onevar(sp)) < 0) goto fix;
  {
    u64 lo = T->vars[x].lo; u32 cnt = (u32)(T->vars[x].hi - lo + 1), bits = n * 8;
    std::vector<u8> ok(cnt, 1); 
    // conditions recorded so far that mention only this variable
    if (VCons->size() <= (size_t)x) VCons->resize(x + 1);
    static u32 seen = 0; for (; seen < T->ncons; seen++) { Con &c = T->cons[seen]; int y = onevar(c.node); if (y >= 0) { if (VCons->size() <= (size_t)y) VCons->resize(y + 1); (*VCons)[y].push_back({c.node, c.val}); } }
    for (auto &c : (*VCons)[x]) { u64 *t = table(c.first, lo, cnt); for (u32 i = 0; i < cnt; i++) if (t[i] != c.second) ok[i] = 0; }
    u64 *ad = table(sp, lo, cnt); std::vector<u64> vals(cnt);
    for (u32 i = 0; i < cnt; i++) if (ok[i]) {
      u64 d = ad[i] > pa ? ad[i] - pa : pa - ad[i];   // (what is decided here must not depend on where the heap happens to lie)
      if (d > 4096 && !mapped(ad[i], n)) goto fix;
      if (!__asan_region_is_poisoned || __asan_region_is_poisoned((void *)ad[i], n)) goto fix;
      u64 w = 0; for (u32 k = 0; k < n; k++) { if (getsh(ad[i] + k)) goto fix; w |= (u64)((u8 *)ad[i])[k] << (8 * k); }
      vals[i] = w;
    }
    // runs of equal values, in order of the variable
    std::vector<std::pair<u32, u64>> runs; for (u32 i = 0; i < cnt; i++) if (ok[i]) { if (!runs.empty() && runs.back().second == vals[i]) runs.back().first = i; else runs.push_back({i, vals[i]}); }
    if (runs.empty()) goto fix;
    if (runs.size() > 64) goto fix;
    u32 vb = T->vars[x].bits, nd = mk(OP_VAR, vb, x, 0, 0, 0), r = cst(runs.back().second, bits);
    for (size_t i = runs.size() - 1; i-- > 0;) { u32 c = vb == 1 ? mkNot(nd) : mkBin(OP_ULE, nd, cst(lo + runs[i].first, vb), vb); r = _sl_ite(1, c, 0, cst(runs[i].second, bits), 0, r, bits); if (!r) r = cst(runs[i].second, bits); }
    return unC(r);
  }
fix:
  _sl_conc(pa, sp, 64);
  return _sl_load(p, n, val);
}
void _sl_store(void *p, u64 v, u32 sv, u32 n) {
  u64 a = (u64)p;
  if (!sv) { for (u32 i = 0; i < n; i++) setsh(a + i, 0); return; }
  if (n == 1) { setsh(a, sv); return; }
  for (u32 i = 0; i < n; i++) setsh(a + i, unC(mkExtract(sv, 8 * i, 8)));
}
void _sl_branch(u32 c, u32 s) { record(s, 0, c & 1); }
void _sl_switch(u64 v, u32 s, u32 bits, u32 n, void *k) {
  u64 *K = (u64 *)k; v = mask(v, bits);
  for (u32 i = 0; i < n; i++) {
    bool eq = v == mask(K[i], bits);
    record(mkBin(OP_EQ, s, cst(K[i], bits), bits), 0, eq);
    if (eq) break;
  }
}
u32 _sl_ite(u32 c, u32 sc, u64 a, u32 sa, u64 b, u32 sb, u32 bits) {
  if (!sc) return (c & 1) ? sa : sb;
  if (!sa) sa = cst(a, bits); if (!sb) sb = cst(b, bits);
  if (sa == sb) return unC(sa);
  if (bits == 1 && isC(sa) && isC(sb)) return N(sa).k ? sc : mkNot(sc);
  return unC(mk(OP_ITE, bits, sc, sa, sb, 0));
}
void _sl_conc(u64 v, u32 s, u32 bits) {
  v = mask(v, bits);
  // peel injective wrappers so that repeated concretisations of the same source are recognised
  for (;;) {
    Node n = N(s);
    if (n.op == OP_ADD && isC(n.b)) { v = mask(v - N(n.b).k, bits); s = n.a; }
    else if (n.op == OP_MUL && isC(n.b) && N(n.b).k && N(n.b).k < 1000000 && (N(n.a).op == OP_SEXT || N(n.a).op == OP_ZEXT) && bits == 64 && N(N(n.a).a).bits <= 32) { v = N(n.a).op == OP_SEXT ? (u64)((int64_t)v / (int64_t)N(n.b).k) : v / N(n.b).k; s = n.a; }
    else if (n.op == OP_ZEXT || n.op == OP_SEXT) { s = n.a; bits = N(s).bits; v = mask(v, bits); }
    else break;
  }
  if (bits == 1) { record(s, 0, v); return; }
  record(s, 1, v);
}
void _sl_memcpy(void *d, void *s, u64 n) {
  u64 a = (u64)d, b = (u64)s; bool any = false;
  if (!n) return;
  for (u64 x = a >> 16; x <= (a + n - 1) >> 16; x++) if (_sym_dir[x]) any = true;
  for (u64 x = b >> 16; x <= (b + n - 1) >> 16 && !any; x++) if (_sym_dir[x]) any = true;
  if (!any) return;
  if (a <= b) for (u64 i = 0; i < n; i++) setsh(a + i, getsh(b + i));
  else for (u64 i = n; i-- > 0;) setsh(a + i, getsh(b + i));
}
void _sl_memset(void *d, u64 v, u32 sv, u64 n) {
  u64 a = (u64)d; if (!n) return;
  if (!sv) { bool any = false; for (u64 x = a >> 16; x <= (a + n - 1) >> 16; x++) if (_sym_dir[x]) any = true; if (!any) return; }
  if (sv && N(sv).bits > 8) sv = unC(mkExtract(sv, 0, 8));
  for (u64 i = 0; i < n; i++) setsh(a + i, sv);
}
void _s_lost(u32) {}
void sym_clear(void *p, size_t n) { if (Tracing) _sl_memset(p, 0, 0, n); }

uint64_t sym_var(const char *name, uint64_t lo, uint64_t hi, int bits) {
  if (!Tracing) { fprintf(stderr, "sym_var outside run\n"); abort(); }
  u32 i = T->nvars;
  if (i >= MAXV) finish(4, "too many symbolic variables");
  T->nvars++;
  VarInfo &V = T->vars[i]; strncpy(V.name, name, sizeof V.name - 1); V.bits = bits; V.lo = lo; V.hi = hi;
  u64 v = i < CurIn->n ? CurIn->v[i] : lo;
  if (v < lo || v > hi) v = lo;
  if (lo == hi) { _sym_ret = 0; return lo; }
  u32 nd = mk(OP_VAR, bits, i, 0, 0, 0);
  _sym_ret = bits == 64 ? nd : mk(OP_ZEXT, 64, nd, 0, 0, 0);
  return v;
}
void _sym_vastart(void *ap, u32 over) { struct va { u32 gp, fp; char *overflow, *save; } *v = (struct va *)ap;
  for (u32 i = 0; i < 24; i++) setsh((u64)ap + i, 0);
  for (u32 i = 0; i < 48; i++) setsh((u64)v->save + i, 0);
  for (u32 i = 0; i < over; i++) setsh((u64)v->overflow + i, 0); }
uint64_t sym_conc64(uint64_t v) { u32 s = _sym_args[0]; _sym_args[0] = 0; if (s) _sl_conc(v, s, 64); _sym_ret = 0; return v; }
void sym_reject(void) { finish(2, 0); abort(); }
void sym_fail(const char *m) { finish(3, m); abort(); }
void sym_limit_exceeded(void) { finish(4, "harness limit"); abort(); }
void sym_note(const char *s) { strncpy(T->note, s, sizeof T->note - 1); }
int sym_nontrivial(void) { T->nontrivial = 1; _sym_ret = 0; return 0; }
int sym_native(void) { _sym_ret = 0; return 0; }
int sym_run(void (*fn)(void *), void *arg) {
  int d = RunDepth; if (d >= 16) finish(4, "nested runs");
  int r = setjmp(RunBuf[d]);
  if (r == 0) { RunDepth = d + 1; memset(_sym_args, 0, sizeof _sym_args); fn(arg); RunDepth = d; memset(_sym_args, 0, sizeof _sym_args); _sym_ret = 0; return 0; }
  RunDepth = d; memset(_sym_args, 0, sizeof _sym_args); _sym_ret = 0; return r;
}
void __asan_handle_no_return(void) __attribute__((weak));
void sym_exit(int code) {
  u32 s = _sym_args[0]; if (s) _sl_conc(code, s, 32);
  if (!RunDepth) finish(3, "exit called outside a run");
  if (__asan_handle_no_return) __asan_handle_no_return();
  longjmp(RunBuf[RunDepth - 1], 1 + (code & 0xff));
}
const char *sym_param(const char *name) { _sym_ret = 0; auto it = Params->find(name); return it == Params->end() ? 0 : it->second.c_str(); }
}

// ------------------------------------------------------------------ worker side
static u64 now_us() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ull + t.tv_nsec / 1000; }
static void lk() { while (__sync_lock_test_and_set(&SH->lock, 1)) sched_yield(); }
static void ul() { __sync_lock_release(&SH->lock); }
#define INC(f, n) __sync_fetch_and_add(&SH->f, (n))

struct CNode { u8 op, bits; u32 a, b, c; u64 k; Z3_ast z; std::vector<u16> vars; };
struct KeyH { size_t operator()(const std::pair<u64, u64> &p) const { return p.first ^ (p.second * 0x9E3779B97F4A7C15ull); } };
struct Solver {
  Z3_context ctx = 0; Z3_solver s = 0;
  std::vector<CNode> nodes; std::unordered_map<std::pair<u64, u64>, u32, KeyH> ht;
  struct Res { int sat; std::vector<std::pair<u16, u32>> m; };
  std::unordered_map<std::pair<u64, u64>, Res, KeyH> cache;
  std::vector<u64> evv; std::vector<u32> evs; u32 evstamp = 0;
  std::map<std::pair<u16, u64>, Z3_ast> varz;
  VarInfo *vi;
  void init() {
    if (s) Z3_solver_dec_ref(ctx, s);
    if (ctx) Z3_del_context(ctx);
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
    s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 20000);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    nodes.clear(); ht.clear(); cache.clear(); ecache.clear(); varz.clear(); nodes.push_back(CNode{});
  }
  u32 intern(u8 op, u8 bits, u32 a, u32 b, u32 c, u64 k) {
    u64 h1 = ((u64)op << 56) | ((u64)bits << 48) | ((u64)(c & 0xffff) << 32) | a, h2 = ((u64)b << 32) ^ k * 0x9E3779B97F4A7C15ull ^ ((u64)c << 13);
    // exact check below guards against collisions
    for (;; h2++) {
      auto it = ht.find({h1, h2});
      if (it == ht.end()) break;
      CNode &n = nodes[it->second];
      if (n.op == op && n.bits == bits && n.a == a && n.b == b && n.c == c && n.k == k) return it->second;
    }
    CNode n{op, bits, a, b, c, k, 0, {}};
    if (op == OP_VAR) n.vars.push_back((u16)a);
    else if (op != OP_CONST) {
      u32 ch[3] = {a, b, c};
      for (u32 x : ch) if (x) { std::vector<u16> r; std::set_union(n.vars.begin(), n.vars.end(), nodes[x].vars.begin(), nodes[x].vars.end(), std::back_inserter(r)); n.vars.swap(r); }
    }
    nodes.push_back(n); u32 id = nodes.size() - 1; ht[{h1, h2}] = id; return id;
  }
  std::vector<u32> memo;
  u32 import(Trace *t, u32 id) {
    if (!id) return 0;
    if (memo[id]) return memo[id];
    // iterative to bound recursion depth
    std::vector<u32> st{id};
    while (!st.empty()) {
      u32 x = st.back(); Node &n = t->nodes[x];
      if (memo[x]) { st.pop_back(); continue; }
      if (n.op == OP_VAR || n.op == OP_CONST) { memo[x] = intern(n.op, n.bits, n.a, 0, 0, n.k); st.pop_back(); continue; }
      bool rdy = true;
      if (n.a && !memo[n.a]) { st.push_back(n.a); rdy = false; }
      if (n.b && !memo[n.b]) { st.push_back(n.b); rdy = false; }
      if (n.c && !memo[n.c]) { st.push_back(n.c); rdy = false; }
      if (rdy) { memo[x] = intern(n.op, n.bits, memo[n.a], memo[n.b], memo[n.c], n.k); st.pop_back(); }
    }
    return memo[id];
  }
  u64 eval(u32 id, const u32 *v) {
    if (evs[id] == evstamp) return evv[id];
    CNode &n = nodes[id]; u64 r = 0;
    switch (n.op) {
      case OP_CONST: r = n.k; break;
      case OP_VAR: r = v[n.a]; break;
      case OP_ZEXT: r = eval(n.a, v); break;
      case OP_SEXT: r = mask(sx(eval(n.a, v), nodes[n.a].bits), n.bits); break;
      case OP_EXTRACT: r = mask(eval(n.a, v) >> n.k, n.bits); break;
      case OP_CONCAT: r = eval(n.a, v) << nodes[n.b].bits | eval(n.b, v); break;
      case OP_ITE: r = eval(n.a, v) ? eval(n.b, v) : eval(n.c, v); break;
      default: r = fold(n.op, eval(n.a, v), eval(n.b, v), nodes[n.a].bits);
    }
    evs[id] = evstamp; evv[id] = r; return r;
  }
  void evreset() { if (evs.size() < nodes.size()) { evs.resize(nodes.size() + 1024, 0); evv.resize(nodes.size() + 1024); } if (++evstamp == 0) { std::fill(evs.begin(), evs.end(), 0); evstamp = 1; } }
  Z3_ast bvz(u32 id) {  // as bit-vector
    Z3_ast a = z(id);
    if (nodes[id].bits == 1) { Z3_sort s1 = Z3_mk_bv_sort(ctx, 1); return Z3_mk_ite(ctx, a, Z3_mk_unsigned_int64(ctx, 1, s1), Z3_mk_unsigned_int64(ctx, 0, s1)); }
    return a;
  }
  Z3_ast z(u32 id) {
    if (nodes[id].z) return nodes[id].z;
    CNode n = nodes[id]; Z3_ast r = 0; bool b1 = n.bits == 1;
    auto A = [&](u32 x) { return z(x); };
    switch (n.op) {
      case OP_CONST: r = b1 ? (n.k ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : Z3_mk_unsigned_int64(ctx, n.k, Z3_mk_bv_sort(ctx, n.bits)); break;
      case OP_VAR: { char nm[16]; snprintf(nm, sizeof nm, "v%u", n.a); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, n.bits)); if (b1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break; }
      case OP_ZEXT: if (nodes[n.a].bits == 1) { Z3_sort so = Z3_mk_bv_sort(ctx, n.bits); r = Z3_mk_ite(ctx, A(n.a), Z3_mk_unsigned_int64(ctx, 1, so), Z3_mk_unsigned_int64(ctx, 0, so)); }
        else r = Z3_mk_zero_ext(ctx, n.bits - nodes[n.a].bits, A(n.a)); break;
      case OP_SEXT: if (nodes[n.a].bits == 1) { Z3_sort so = Z3_mk_bv_sort(ctx, n.bits); r = Z3_mk_ite(ctx, A(n.a), Z3_mk_unsigned_int64(ctx, mask(~0ull, n.bits), so), Z3_mk_unsigned_int64(ctx, 0, so)); }
        else r = Z3_mk_sign_ext(ctx, n.bits - nodes[n.a].bits, A(n.a)); break;
      case OP_EXTRACT: r = Z3_mk_extract(ctx, n.k + n.bits - 1, n.k, bvz(n.a)); if (b1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break;
      case OP_CONCAT: r = Z3_mk_concat(ctx, bvz(n.a), bvz(n.b)); break;
      case OP_ITE: r = Z3_mk_ite(ctx, A(n.a), A(n.b), A(n.c)); break;
      default: {
        bool o1 = nodes[n.a].bits == 1; Z3_ast a = A(n.a), b = A(n.b); Z3_ast ab[2] = {a, b};
        if (o1) {
          switch (n.op) {
            case OP_AND: case OP_MUL: r = Z3_mk_and(ctx, 2, ab); break; case OP_OR: r = Z3_mk_or(ctx, 2, ab); break;
            case OP_XOR: case OP_NE: case OP_ADD: case OP_SUB: r = Z3_mk_xor(ctx, a, b); break; case OP_EQ: r = Z3_mk_iff(ctx, a, b); break;
            case OP_ULT: { Z3_ast t[2] = {Z3_mk_not(ctx, a), b}; r = Z3_mk_and(ctx, 2, t); break; }
            case OP_ULE: { Z3_ast t[2] = {Z3_mk_not(ctx, a), b}; r = Z3_mk_or(ctx, 2, t); break; }
            default: fprintf(stderr, "1-bit op %d\n", n.op); abort();
          }
        } else switch (n.op) {
          case OP_ADD: r = Z3_mk_bvadd(ctx, a, b); break; case OP_SUB: r = Z3_mk_bvsub(ctx, a, b); break;
          case OP_MUL: r = Z3_mk_bvmul(ctx, a, b); break; case OP_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
          case OP_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break; case OP_UREM: r = Z3_mk_bvurem(ctx, a, b); break;
          case OP_SREM: r = Z3_mk_bvsrem(ctx, a, b); break; case OP_SHL: r = Z3_mk_bvshl(ctx, a, b); break;
          case OP_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break; case OP_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
          case OP_AND: r = Z3_mk_bvand(ctx, a, b); break; case OP_OR: r = Z3_mk_bvor(ctx, a, b); break;
          case OP_XOR: r = Z3_mk_bvxor(ctx, a, b); break; case OP_EQ: r = Z3_mk_eq(ctx, a, b); break;
          case OP_NE: r = Z3_mk_not(ctx, Z3_mk_eq(ctx, a, b)); break; case OP_ULT: r = Z3_mk_bvult(ctx, a, b); break;
          case OP_ULE: r = Z3_mk_bvule(ctx, a, b); break; case OP_SLT: r = Z3_mk_bvslt(ctx, a, b); break;
          case OP_SLE: r = Z3_mk_bvsle(ctx, a, b); break;
          default: fprintf(stderr, "op %d\n", n.op); abort();
        }
      }
    }
    nodes[id].z = r; return r;
  }
  Z3_ast varConst(u16 v, u32 bits) { char nm[16]; snprintf(nm, sizeof nm, "v%u", v); return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, bits)); }
  // constraint: node == val for kind 1, node (bool) == val for kind 0; neg flips it
  struct CC { u32 n; u32 kind; u64 val; bool neg; };
  Z3_ast lit(const CC &c) {
    Z3_ast a;
    if (c.kind == 0) { a = z(c.n); if ((c.val != 0) == c.neg) a = Z3_mk_not(ctx, a); return a; }
    a = Z3_mk_eq(ctx, z(c.n), Z3_mk_unsigned_int64(ctx, c.val, Z3_mk_bv_sort(ctx, nodes[c.n].bits)));
    return c.neg ? Z3_mk_not(ctx, a) : a;
  }
  typedef std::vector<std::pair<u16, u32>> Model;
  std::pair<u64, u64> key(const std::vector<CC> &cs, const std::vector<u16> &vars, const std::vector<std::vector<u32>> &dom) {
    std::vector<u64> key;
    for (auto &c : cs) key.push_back(((u64)c.n << 20) ^ (c.kind << 1) ^ (u64)c.neg ^ (c.val * 0x9E3779B97F4A7C15ull));
    std::sort(key.begin(), key.end());
    u64 h1 = 1469598103934665603ull, h2 = 0x9E3779B97F4A7C15ull;
    for (u64 k : key) { h1 = (h1 ^ k) * 1099511628211ull; h1 ^= h1 >> 31; h2 = (h2 + k) * 0xff51afd7ed558ccdull; h2 ^= h2 >> 33; }
    for (u16 v : vars) { h1 = (h1 ^ vi[v].lo ^ (vi[v].hi << 9)) * 1099511628211ull; h2 += vi[v].hi * 31 + vi[v].lo + v; for (u32 d : dom[v]) { h1 = (h1 ^ d ^ 77) * 1099511628211ull; h2 = (h2 + d) * 0xff51afd7ed558ccdull; h2 ^= h2 >> 33; } }
    return {h1, h2};
  }
  void begin(const std::vector<CC> &cs, const std::vector<u16> &vars, const std::vector<std::vector<u32>> &dom) {
    Z3_solver_push(ctx, s);
    for (u16 v : vars) {
      Z3_ast x = varConst(v, vi[v].bits); Z3_sort so = Z3_mk_bv_sort(ctx, vi[v].bits);
      if (!dom[v].empty()) {   // the values earlier conditions on this variable alone leave, as ranges
        std::vector<Z3_ast> rs; auto &D = dom[v]; auto num = [&](u32 k) { return Z3_mk_unsigned_int64(ctx, k, so); };
        for (size_t a = 0; a < D.size();) { size_t b = a; while (b + 1 < D.size() && D[b + 1] == D[b] + 1) b++; Z3_ast t[2] = {Z3_mk_bvuge(ctx, x, num(D[a])), Z3_mk_bvule(ctx, x, num(D[b]))}; rs.push_back(a == b ? Z3_mk_eq(ctx, x, num(D[a])) : Z3_mk_and(ctx, 2, t)); a = b + 1; }
        Z3_solver_assert(ctx, s, rs.size() == 1 ? rs[0] : Z3_mk_or(ctx, rs.size(), rs.data())); continue;
      }
      if (vi[v].lo) Z3_solver_assert(ctx, s, Z3_mk_bvuge(ctx, x, Z3_mk_unsigned_int64(ctx, vi[v].lo, so)));
      if (vi[v].hi < mask(~0ull, vi[v].bits)) Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, x, Z3_mk_unsigned_int64(ctx, vi[v].hi, so)));
    }
    for (auto &c : cs) Z3_solver_assert(ctx, s, lit(c));
  }
  int check(const std::vector<u16> &vars, Model &mod) {
    u64 t0 = now_us(); Z3_lbool r = Z3_solver_check(ctx, s); int sat = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; mod.clear();
    if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
      for (u16 v : vars) {
        Z3_ast out; u64 val = vi[v].lo;
        if (Z3_model_eval(ctx, m, varConst(v, vi[v].bits), false, &out)) { Z3_get_numeral_uint64(ctx, out, &val); }
        mod.push_back({v, (u32)val});
      }
      Z3_model_dec_ref(ctx, m);
    }
    INC(queries, 1); INC(solver_us, now_us() - t0);
    if (sat == 1) INC(sat, 1); else if (sat == 0) INC(unsat, 1); else INC(unknown, 1);
    return sat;
  }
  // returns 1 sat 0 unsat -1 unknown
  int solve(const std::vector<CC> &cs, const std::vector<u16> &vars, const std::vector<std::vector<u32>> &dom, Model &model) {
    auto k = key(cs, vars, dom); auto it = cache.find(k);
    if (it != cache.end()) { INC(cache, 1); model = it->second.m; return it->second.sat; }
    u64 t0 = now_us(); begin(cs, vars, dom); INC(solver_us, now_us() - t0);
    Res res; res.sat = check(vars, res.m); Z3_solver_pop(ctx, s, 1);
    model = res.m; int sat = res.sat;
    if (sat >= 0) cache[k] = std::move(res);
    return sat;
  }
  // one model for every value node can have besides those cs excludes; incremental
  std::unordered_map<std::pair<u64, u64>, std::vector<Model>, KeyH> ecache;
  bool enumerate(const std::vector<CC> &cs, const std::vector<u16> &vars, const std::vector<std::vector<u32>> &dom, u32 node, const u32 *vals, u32 nv, std::vector<Model> &out, u32 limit) {
    auto k = key(cs, vars, dom); auto it = ecache.find(k);
    if (it != ecache.end()) { INC(cache, 1); out = it->second; return true; }
    u64 t0 = now_us(); begin(cs, vars, dom); INC(solver_us, now_us() - t0);
    Model m; int r; bool ok = true;
    while ((r = check(vars, m)) == 1) {
      out.push_back(m); if (out.size() > limit) { ok = false; break; }
      u32 tmp[MAXV]; memcpy(tmp, vals, nv * sizeof(u32)); for (auto &pr : m) tmp[pr.first] = pr.second;
      evreset(); u64 v = eval(node, tmp);
      Z3_solver_assert(ctx, s, lit(CC{node, 1, v, true}));
    }
    Z3_solver_pop(ctx, s, 1);
    if (ok && r == 0) ecache[k] = out;
    return ok;
  }
};

static void push(const Input &in) {
  lk();
  if (SH->qn >= QCAP) { SH->dropped++; ul(); return; }
  memcpy(&Q[SH->qn], &in, offsetof(Input, v) + in.n * sizeof(u32)); SH->qn++;
  ul();
}
static int NW = 8; static double Deadline = 60; static u64 T0; static int RunLimit = 10; static u64 MaxPaths = ~0ull; static int MaxFail = 12;
static bool popin(Input *in, int w, u64 &rng, bool wasActive) {
  lk();
  if (wasActive) SH->active--;
  if (SH->qn == 0) { ul(); return false; }
  u64 i = SH->qn - 1;
  if (w & 1) { rng = rng * 6364136223846793005ull + 1442695040888963407ull; i = (rng >> 20) % SH->qn; }
  memcpy(in, &Q[i], sizeof(Input));
  if (i != SH->qn - 1) memcpy(&Q[i], &Q[SH->qn - 1], sizeof(Input));
  SH->qn--; SH->active++;
  ul(); return true;
}
static void addViol(int kind, const char *msg, const Input &in) {
  lk();
  bool dup = false;
  for (u32 i = 0; i < SH->nviol; i++) if (!strncmp(SH->viol[i].msg, msg, 160)) dup = true;
  if (!dup && SH->nviol < MAXVIOL) {
    if (msg[0] != '~') SH->nhard++;
    Viol &V = SH->viol[SH->nviol++]; V.kind = kind; V.n = in.n; memcpy(V.v, in.v, sizeof V.v);
    V.nv = T->nvars; memcpy(V.vars, T->vars, sizeof V.vars);
    strncpy(V.msg, msg, sizeof V.msg - 1); strncpy(V.note, T->note, sizeof V.note - 1);
  }
  ul();
}
static void worker(int w) {
  T = (Trace *)mmap(0, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  char errf[64]; snprintf(errf, sizeof errf, "/tmp/.dse.%d.%d", getpid(), w);
  int efd = open(errf, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600); unlink(errf);
  Solver S; S.init();
  u64 rng = 88172645463325252ull + w * 7777;
  bool act = false; Input in;
  for (;;) {
    if (SH->stop || now_us() - T0 > Deadline * 1e6 || SH->paths >= MaxPaths) { if (act) { lk(); SH->active--; ul(); } break; }
    memset(&in, 0, sizeof in);
    bool got = popin(&in, w, rng, act);
    if (!got) { act = false; lk(); bool done = SH->active == 0 && SH->qn == 0; ul(); if (done) break; usleep(300); continue; }
    act = true;
    T->nnodes = T->ncons = T->nvars = T->status = T->nontrivial = 0; T->msg[0] = T->note[0] = 0;
    if (ftruncate(efd, 0)) {}
    lseek(efd, 0, SEEK_SET);
    pid_t p = fork();
    if (p == 0) {
      dup2(efd, 2); dup2(efd, 1);
      struct itimerval itv = {{0, 0}, {RunLimit, 0}}; setitimer(ITIMER_REAL, &itv, 0);
      signal(SIGALRM, SIG_DFL);
      CurIn = &in; Tracing = true; VCons = new std::vector<std::vector<std::pair<u32, u64>>>; Tab = new std::unordered_map<u32, u64 *>; OneVar = new std::unordered_map<u32, int>; if (Params->count("nosym")) SymLoads = false;
      sym_harness();
      finish(1, 0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    bool crash = false; char msg[2000] = "";
    int status = T->status; u64 pathno = INC(paths, 1) + 1;
    if (status == 1 || status == 2) { if (status == 2) INC(rejected, 1); }
    else if (status == 3) { if (T->msg[0] == '~') INC(soft, 1); else INC(failed, 1); addViol(1, T->msg, in); }   // '~': listed findings must not stop the search
    else if (status == 4) { INC(limits, 1); lk(); if (getenv("DSE_DEBUG")) fprintf(stderr, "limit: %s\n", T->msg); ul(); }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { INC(timeouts, 1); addViol(3, "the run does not terminate within its time limit", in); }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { INC(limits, 1); }
    else {
      crash = true; INC(crashed, 1);
      char buf[6000]; lseek(efd, 0, SEEK_SET); ssize_t r = read(efd, buf, sizeof buf - 1); if (r < 0) r = 0; buf[r] = 0;
      char *e = strstr(buf, "ERROR: AddressSanitizer: ");
      char kind[128] = ""; if (e) { e += 25; size_t k = strcspn(e, " \n"); snprintf(kind, sizeof kind, "%.*s", (int)std::min<size_t>(k, 100), e); }
      char *f0 = strstr(buf, "#0 "); char loc[200] = "";
      if (f0) { char *f1 = strchr(f0, '('); size_t k = f1 ? strcspn(f1, "\n") : 0; if (f1) snprintf(loc, sizeof loc, "%.*s", (int)std::min<size_t>(k, 150), f1); }
      if (kind[0]) snprintf(msg, sizeof msg, "memory error: %s %s", kind, loc);
      else snprintf(msg, sizeof msg, "crash: wait status 0x%x %.200s", st, buf);
      addViol(2, msg, in);
      if (getenv("DSE_DEBUG")) fprintf(stderr, "%s\n", buf);
    }
    if (SH->failed + SH->crashed + SH->timeouts >= (u64)MaxFail * 20 || SH->nhard >= (u32)MaxFail || SH->timeouts > 8) SH->stop = 1;
    if (T->nontrivial) INC(nontriv, 1);
    if (T->note[0] && (SH->nsamp < NSAMP / 2 || (pathno & (pathno - 1)) == 0)) { lk(); if (SH->nsamp < NSAMP) { strncpy(SH->samp[SH->nsamp], T->note, 2999); SH->nsamp++; } ul(); }
    // expand
    if (S.nodes.size() > 1500000 || S.cache.size() > 1500000) S.init();
    S.vi = T->vars; u32 n = T->ncons;
    INC(sumcons, n); if (n > SH->maxcons) SH->maxcons = n; if (T->nvars > SH->nvmax) SH->nvmax = T->nvars;
    u32 nv = T->nvars; u32 vals[MAXV];
    for (u32 i = 0; i < nv; i++) { vals[i] = i < in.n ? in.v[i] : (u32)T->vars[i].lo; if (vals[i] < T->vars[i].lo || vals[i] > T->vars[i].hi) vals[i] = (u32)T->vars[i].lo; }
    S.memo.assign(T->nnodes + 1, 0);
    std::vector<Solver::CC> cc(n);
    for (u32 i = 0; i < n; i++) cc[i] = {S.import(T, T->cons[i].node), T->cons[i].kind, T->cons[i].val, false};
    S.evreset();
    bool div = false;
    for (u32 i = 0; i < n; i++) { u64 v = S.eval(cc[i].n, vals); if (v != cc[i].val) div = true; }
    if (div) { INC(diverge, 1); if (getenv("DSE_DEBUG")) { fprintf(stderr, "divergence note %s", T->note); for (u32 i = 0; i < n; i++) { S.evreset(); u64 v = S.eval(cc[i].n, vals); if (v != cc[i].val) fprintf(stderr, " [%u/%u kind %d recorded %lx evaluated %lx op %d]", i, n, cc[i].kind, cc[i].val, v, S.nodes[cc[i].n].op); } fprintf(stderr, "\n"); } continue; }
    if (n < in.pos) { INC(infeasible, 1); if (getenv("DSE_DEBUG")) { fprintf(stderr, "short path: %u conditions, %u expected; status %d wait 0x%x note %s vars", n, in.pos, T->status, st, T->note); for (u32 i = 0; i < in.n; i++) fprintf(stderr, " %u", in.v[i]); fprintf(stderr, "\n"); } continue; }
    // union-find over variables
    std::vector<u16> uf(nv); for (u32 i = 0; i < nv; i++) uf[i] = i;
    std::vector<std::vector<u32>> comp(nv); std::vector<std::vector<u16>> cv(nv); for (u32 i = 0; i < nv; i++) cv[i].push_back(i);
    std::vector<std::vector<u32>> dom(nv); std::vector<char> unary(n, 0);
    auto find = [&](u16 x) { while (uf[x] != x) { uf[x] = uf[uf[x]]; x = uf[x]; } return x; };
    for (u32 i = 0; i < n; i++) {
      auto &vs = S.nodes[cc[i].n].vars;
      // A condition on one small variable that has the same value for everything the earlier
      // conditions leave open is implied: it adds nothing and has no other outcome.
      std::vector<u32> before;
      int one = vs.size() == 1 ? vs[0] : -1; bool small = one >= 0 && T->vars[one].hi - T->vars[one].lo < 256; unary[i] = small;
      if (small) {
        auto &D = dom[one];
        if (D.empty()) for (u64 v = T->vars[one].lo; v <= T->vars[one].hi; v++) D.push_back((u32)v);
        if (D.size() <= 1) continue;
        std::vector<u32> keep; u32 save = vals[one]; before = D;
        for (u32 v : D) { vals[one] = v; S.evreset(); if (S.eval(cc[i].n, vals) == cc[i].val) keep.push_back(v); }
        vals[one] = save;
        if (keep.size() == D.size()) { INC(implied, 1); continue; }
        D.swap(keep);
      } else if (!vs.empty()) {
        bool all = true; for (u16 v : vs) if (dom[v].size() != 1) { all = false; break; }
        if (all) { INC(implied, 1); continue; }
      }
      if (i >= in.pos) {
        if (SH->stop || now_us() - T0 > Deadline * 1e6) { INC(dropped, 1); break; }
        std::vector<u16> roots; for (u16 v : vs) { u16 r = find(v); if (std::find(roots.begin(), roots.end(), r) == roots.end()) roots.push_back(r); }
        std::vector<Solver::CC> q; std::vector<u16> qv;
        for (u16 r : roots) { for (u32 j : comp[r]) if (!unary[j]) q.push_back(cc[j]); for (u16 v : cv[r]) qv.push_back(v); }
        std::sort(qv.begin(), qv.end());
        if (small) dom[one].swap(before);
        auto emit = [&](std::vector<std::pair<u16, u32>> &m) {
          Input ni; memset(&ni, 0, offsetof(Input, v)); ni.n = nv; ni.pos = i + 1; memcpy(ni.v, vals, nv * sizeof(u32));
          for (auto &pr : m) ni.v[pr.first] = pr.second;
          push(ni);
        };
        std::vector<std::pair<u16, u32>> m;
        Solver::CC ng = cc[i]; ng.neg = true; q.push_back(ng);
        if (cc[i].kind == 0) { int r = S.solve(q, qv, dom, m); if (r == 1) emit(m); }
        else {
          std::vector<Solver::Model> ms; if (!S.enumerate(q, qv, dom, cc[i].n, vals, nv, ms, 5000)) INC(dropped, 1);
          for (auto &x : ms) emit(x);
        }
        if (small) dom[one].swap(before);
      }
      if (!vs.empty()) {
        u16 r0 = find(vs[0]);
        for (u16 v : vs) { u16 r = find(v); if (r != r0) { uf[r] = r0; comp[r0].insert(comp[r0].end(), comp[r].begin(), comp[r].end()); cv[r0].insert(cv[r0].end(), cv[r].begin(), cv[r].end()); comp[r].clear(); cv[r].clear(); } }
        comp[r0].push_back(i);
      }
    }
  }
  _exit(0);
}
static void jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c); else fputc(c, f); }
  fputc('"', f);
}
int main(int argc, char **argv) {
  Params = new std::map<std::string, std::string>; const char *out = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; size_t e = a.find('=');
    if (e == std::string::npos) continue;
    std::string k = a.substr(0, e), v = a.substr(e + 1);
    if (k == "-out") out = strdup(v.c_str()); else if (k == "-j") NW = atoi(v.c_str()); else if (k == "-t") Deadline = atof(v.c_str());
    else if (k == "-run") RunLimit = atoi(v.c_str()); else if (k == "-paths") MaxPaths = strtoull(v.c_str(), 0, 10); else if (k == "-maxfail") MaxFail = atoi(v.c_str());
    else (*Params)[k] = v;
  }
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Q = (Input *)mmap(0, sizeof(Input) * QCAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  _sym_dir = (u32 **)mmap(0, 8ull << 31, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  HT = (u32 *)mmap(0, 4ull * HS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  Seen = (u8 *)mmap(0, MAXNODE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (SH == MAP_FAILED || Q == MAP_FAILED || _sym_dir == MAP_FAILED || HT == MAP_FAILED || Seen == MAP_FAILED) { perror("mmap"); return 2; }
  T0 = now_us();
  Input z; memset(&z, 0, sizeof z); push(z);
  std::vector<pid_t> ps;
  for (int w = 0; w < NW; w++) { pid_t p = fork(); if (p == 0) worker(w); ps.push_back(p); }
  int bad = 0;
  for (pid_t p : ps) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
  FILE *f = out ? fopen(out, "w") : stdout;
  bool complete = SH->qn == 0 && !SH->dropped && !SH->limits && !SH->unknown && !SH->diverge && !SH->stop && !bad && !SH->infeasible && !SH->timeouts;
  fprintf(f, "{\"complete\":%s,\"paths\":%lu,\"rejected\":%lu,\"failed\":%lu,\"crashed\":%lu,\"timeouts\":%lu,\"limits\":%lu,\"nontrivial\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cache_hits\":%lu,\"implied\":%lu,\"divergences\":%lu,\"infeasible\":%lu,\"dropped\":%lu,\"pending\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"max_constraints\":%lu,\"constraints\":%lu,\"max_vars\":%u,\"workers_lost\":%d,",
    complete ? "true" : "false", SH->paths, SH->rejected, SH->failed, SH->crashed, SH->timeouts, SH->limits, SH->nontriv, SH->queries, SH->sat, SH->unsat, SH->unknown, SH->cache, SH->implied, SH->diverge, SH->infeasible, SH->dropped, SH->qn, SH->solver_us / 1e6, (now_us() - T0) / 1e6, SH->maxcons, SH->sumcons, SH->nvmax, bad);
  fprintf(f, "\"samples\":[");
  for (u32 i = 0; i < SH->nsamp; i++) { if (i) fputc(',', f); jstr(f, SH->samp[i]); }
  fprintf(f, "],\"violations\":[");
  for (u32 i = 0; i < SH->nviol; i++) {
    Viol &V = SH->viol[i]; if (i) fputc(',', f);
    fprintf(f, "{\"kind\":%u,\"msg\":", V.kind); jstr(f, V.msg); fprintf(f, ",\"note\":"); jstr(f, V.note); fprintf(f, ",\"vars\":[");
    for (u32 j = 0; j < V.nv; j++) { u64 v = j < V.n ? V.v[j] : V.vars[j].lo; if (v < V.vars[j].lo || v > V.vars[j].hi) v = V.vars[j].lo; fprintf(f, "%s[", j ? "," : ""); jstr(f, V.vars[j].name); fprintf(f, ",%lu]", v); }
    fprintf(f, "]}");
  }
  fprintf(f, "]}\n");
  if (out) fclose(f);
  return 0;
}
