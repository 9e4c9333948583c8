// A world of MPI ranks: every rank is a coroutine of this process that runs the real code; all message passing goes
// through this scheduler. A rank only learns about the others through Test/Wait/Recv/collectives, so the schedules
// that can be told apart are enumerated at MPI_Test: has the peer got as far as sending by now, or not yet.
#ifndef MPIW_HPP
#define MPIW_HPP
#include "vf.h"
#include "vfstub.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <vector>
#include <deque>
#include <functional>
#include <string>
#include <cstring>
#include <cstdlib>
namespace mpiw {
static const size_t STK = 1 << 24 /* the solver runs on it, too */;
struct Req { int owner; bool send; char* buf; int bytes, peer, tag; bool matched = false, done = false, released = false; std::vector<char> data; };
struct Coll { int kind, bytes, root, arrived = 0, n = 0; bool have = false; std::vector<std::vector<char>> part; };
struct Co { ucontext_t ctx; char* stk; char* sp; bool finished = false; std::function<bool()> ready; int coll = 0; std::function<void()> body; };
struct World {
  int size; bool eager; std::vector<Co> co; ucontext_t mainctx; int cur = -1, force = -1; long progress = 0; std::vector<Req*> reqs; std::vector<Coll> colls; std::vector<long> seen; std::vector<int> fruitless; int maxidle; long steps = 0; int ntest = 0;
};
static World* W;
static int rank() { return W->cur < 0 ? 0 : W->cur; }
static bool dead(int r, char* p) { Co& c = W->co[r]; if (p < c.stk || p >= c.stk + STK) return false; char* sp = r == W->cur ? (char*)__builtin_frame_address(0) : c.sp; return p < sp || c.finished; }
__attribute__((noinline)) static void yield(std::function<bool()> ready) { Co& c = W->co[W->cur]; c.ready = ready; c.sp = (char*)__builtin_frame_address(0); swapcontext(&c.ctx, &W->mainctx); }
static void block(std::function<bool()> cond) { while (!cond()) yield(cond); }
static void match() {
  for (Req* r : W->reqs) if (!r->send && !r->matched) for (Req* s : W->reqs) if (s->send && !s->matched && s->peer == r->owner && (r->peer < 0 || r->peer == s->owner) && (r->tag < 0 || r->tag == s->tag)) {
    vf_assert(s->bytes <= r->bytes, "a message fits into its receive buffer");
    vf_assert(!dead(r->owner, r->buf), "the buffer of a pending receive is alive");
    if (!W->eager) { vf_assert(!dead(s->owner, s->buf), "the buffer of a pending send is alive"); memcpy(r->buf, s->buf, s->bytes); } else memcpy(r->buf, s->data.data(), s->bytes);
    r->matched = r->done = s->matched = s->done = true; W->progress++; break; }
}
static void* post(int send, void* buf, int bytes, int peer, int tag) {
  Req* q = new Req; q->owner = W->cur; q->send = send; q->buf = (char*)buf; q->bytes = bytes; q->peer = peer; q->tag = tag;
  vf_assert(peer < W->size && peer != W->cur, "the peer exists"); if (send && W->eager) { q->data.assign((char*)buf, (char*)buf + bytes); q->done = true; } W->reqs.push_back(q); match(); return q;
}
static bool runnable(int r) { Co& c = W->co[r]; return !c.finished && (!c.ready || c.ready()); }
static int test(void* v) {
  Req* q = (Req*)v; int me = W->cur; vf_assert(!q->released, "a request is used until it completes");
  if (!q->done) {
    if (W->seen[me] != W->progress) { W->seen[me] = W->progress; W->fruitless[me] = 0; }
    bool can = q->peer >= 0 ? runnable(q->peer) : false; int pick = q->peer;
    if (q->peer < 0) { std::vector<int> c; for (int r = 0; r < W->size; r++) if (r != me && runnable(r)) c.push_back(r); if (!c.empty()) { can = true; pick = c[vf_choose("sender", c.size())]; } }
    bool any = false; for (int r = 0; r < W->size; r++) if (r != me && runnable(r)) any = true;
    bool forced = me != 0 || W->fruitless[me] >= W->maxidle; // (a worker only waits for the root)
    if (can && (forced || vf_choose("sent by now", 2))) { W->force = pick; yield([] { return true; }); }
    else if (!can && forced) { long p = W->progress; if (any) { for (int r = 0; r < W->size; r++) if (r != me && runnable(r)) { W->force = r; break; } yield([] { return true; }); } else yield([p] { return W->progress != p; }); }
    if (!q->done) W->fruitless[me]++;
  }
  if (q->done) { q->released = true; W->fruitless[me] = 0; return 1; }
  if (++W->steps > 100000) { vf_assert(false, "the ranks make progress"); abort(); }
  return 0;
}
static void wait(void* v) { Req* q = (Req*)v; vf_assert(!q->released, "a request is used until it completes"); block([q] { return q->done; }); q->released = true; }
static Coll& coll(int kind, int bytes, int root, int& k) { k = W->co[W->cur].coll++; if (k == (int)W->colls.size()) { Coll c; c.kind = kind; c.bytes = bytes; c.root = root; c.part.resize(W->size); W->colls.push_back(c); } Coll& c = W->colls[k]; vf_assert(c.kind == kind && c.bytes == bytes && c.root == root, "the ranks call the same collectives"); return c; }
static void bcast(void* b, int bytes, int root) {
  int k; Coll& c = coll(0, bytes, root, k); c.arrived++; W->progress++;
  if (root < 0) { block([k] { return W->colls[k].arrived == W->size; }); return; }
  if (W->cur == root) { c.part[0].assign((char*)b, (char*)b + bytes); c.have = true; if (!W->eager) block([k] { return W->colls[k].arrived == W->size; }); }
  else { block([k] { return W->colls[k].have; }); memcpy(b, W->colls[k].part[0].data(), bytes); }
}
static int reduce(const void* s, void* r, int n, int dbl, int op, int root) {
  int k, sz = n * (dbl ? 8 : 4); Coll& c = coll(1 + op, sz, root, k); c.part[W->cur].assign((char*)s, (char*)s + sz); c.arrived++; W->progress++; (void)c;
  if (W->cur == root || !W->eager) block([k] { return W->colls[k].arrived == W->size; });
  if (W->cur == root) for (int i = 0; i < n; i++) { if (dbl) { double v = 0; for (int q = 0; q < W->size; q++) { double t; memcpy(&t, &W->colls[k].part[q][8 * i], 8); v = op == 0 ? v + t : q == 0 ? t : op == 1 ? vf_fmin(v, t) : vf_fmax(v, t); } memcpy((char*)r + 8 * i, &v, 8); } else { int v = 0; for (int q = 0; q < W->size; q++) { int t; memcpy(&t, &W->colls[k].part[q][4 * i], 4); v = op == 0 ? v + t : q == 0 ? t : op == 1 ? (v < t ? v : t) : (v > t ? v : t); } memcpy((char*)r + 4 * i, &v, 4); } }
  return 0;
}
static void tramp() { int me = W->cur; W->co[me].body(); W->co[me].finished = true; W->progress++; swapcontext(&W->co[me].ctx, &W->mainctx); }
static void run(int size, bool eager, int maxidle, std::function<void(int)> body) {
  W = new World; W->size = size; W->eager = eager; W->maxidle = maxidle; W->co.resize(size); W->seen.assign(size, -1); W->fruitless.assign(size, 0); static vfs_mpi_hooks h; h.size = size; h.rank = rank; h.post = post; h.test = test; h.wait = wait; h.bcast = bcast; h.reduce = reduce; vfs_mpi = &h;
  for (int r = 0; r < size; r++) { Co& c = W->co[r]; c.stk = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); c.sp = c.stk + STK; c.body = [body, r] { body(r); }; getcontext(&c.ctx); c.ctx.uc_stack.ss_sp = c.stk; c.ctx.uc_stack.ss_size = STK; c.ctx.uc_link = &W->mainctx; makecontext(&c.ctx, tramp, 0); }
  for (;;) {
    int pick = -1; if (W->force >= 0 && runnable(W->force)) pick = W->force; W->force = -1;
    for (int r = 0; pick < 0 && r < size; r++) if (runnable(r)) pick = r;
    if (pick < 0) break;
    W->cur = pick; swapcontext(&W->mainctx, &W->co[pick].ctx); W->cur = -1;
  }
  bool all = true; for (auto& c : W->co) all = all && c.finished; vf_assert(all, "no deadlock"); if (!all) abort();
  for (Req* q : W->reqs) { vf_assert(q->matched, "every message is delivered"); vf_assert(q->released, "every nonblocking operation is completed"); }
  for (auto& c : W->co) munmap(c.stk, STK);
  vfs_mpi = nullptr;
}
}
#endif
