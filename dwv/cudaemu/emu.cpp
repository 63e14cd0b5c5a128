#include "cuda_runtime.h"

#include <ucontext.h>

#include <deque>
#include <functional>
#include <memory>
#include <vector>

namespace dw_emu {
uint3 thread_idx(0, 0, 0), block_idx(0, 0, 0);
dim3 block_dim, grid_dim;

typedef std::shared_ptr<bool> Token;
struct Op {
  std::function<void()> run;  // empty: record or wait
  Token record, wait;
};
}  // namespace dw_emu

struct CUstream_st {
  std::deque<dw_emu::Op> q;
  bool destroyed = false;
};
struct CUevent_st {
  dw_emu::Token last;
};

namespace dw_emu {
static CUstream_st stream0;
static std::vector<CUstream_st *> streams{&stream0};
static cudaError_t last_error = cudaSuccess;
static uint64_t rng = 88172645463325252ull;
static uint64_t n_leftover = 0, n_launches = 0, n_blocked = 0;

static uint64_t rnd() {
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng >> 11;
}
static CUstream_st *st(cudaStream_t s) { return s ? s : &stream0; }
static bool runnable(CUstream_st *s) {
  return !s->q.empty() && (!s->q.front().wait || *s->q.front().wait);
}
static void step(CUstream_st *s) {
  Op op = std::move(s->q.front());
  s->q.pop_front();
  if (op.run) op.run();
  if (op.record) *op.record = true;
}
static void reap() {
  for (size_t i = 1; i < streams.size();) {
    if (streams[i]->destroyed && streams[i]->q.empty()) {
      delete streams[i];
      streams.erase(streams.begin() + i);
    } else
      ++i;
  }
}
// Constant memory: only kernels see what was copied to a symbol, to the host
// the variable stays as it was initialised.
struct Symbol {
  void *p;
  std::vector<char> device, host;
};
static std::vector<Symbol> symbols;
static bool on_device = false;
struct OnDevice {
  OnDevice() {
    on_device = true;
    for (auto &s : symbols) memcpy(s.p, s.device.data(), s.device.size());
  }
  ~OnDevice() {
    on_device = false;
    for (auto &s : symbols) {
      memcpy(s.device.data(), s.p, s.device.size());
      memcpy(s.p, s.host.data(), s.host.size());
    }
  }
};

// Runs queued work in a random legal order until done() holds.
static void until(std::function<bool()> done) {
  // 0: as late as possible on other streams, 1: random, 2: others first
  int const policy = (int)(rnd() % 3);
  if (done()) return;
  OnDevice scope;
  while (!done()) {
    std::vector<CUstream_st *> can;
    for (auto *s : streams)
      if (runnable(s)) can.push_back(s);
    if (can.empty()) {
      fprintf(stderr, "EMU: deadlock\n");
      abort();
    }
    if (can.size() > 1) n_blocked++;
    size_t k = policy == 0 ? 0 : policy == 2 ? can.size() - 1 : rnd() % can.size();
    step(can[k]);
  }
  reap();
}
static void drain(CUstream_st *s) {
  until([s] { return s->q.empty(); });
}
void enqueue(cudaStream_t s, std::function<void()> f) {
  st(s)->q.push_back(Op{std::move(f), nullptr, nullptr});
}

// --- kernels -------------------------------------------------------------
static std::vector<char> shared_mem(1 << 20);
void *shared() { return shared_mem.data(); }

static size_t const STACK = 96 * 1024;
static ucontext_t main_ctx;
static std::vector<ucontext_t> ctx;
static std::vector<std::unique_ptr<char[]>> stacks;
static std::vector<char> finished;
static size_t cur;
static bool in_fiber = false;
static std::function<void()> const *cur_body;

static void entry() {
  (*cur_body)();
  finished[cur] = 1;
  swapcontext(&ctx[cur], &main_ctx);
}
void syncthreads() {
  if (!in_fiber) {
    fprintf(stderr, "EMU: __syncthreads outside of a fiber\n");
    abort();
  }
  swapcontext(&ctx[cur], &main_ctx);
}

static void set_thread(size_t i) {
  thread_idx.x = i % block_dim.x;
  thread_idx.y = i / block_dim.x % block_dim.y;
  thread_idx.z = i / block_dim.x / block_dim.y;
}

static void run_kernel(dim3 g, dim3 b, bool fibers, std::function<void()> const &body) {
  grid_dim = g;
  block_dim = b;
  size_t const nt = (size_t)b.x * b.y * b.z, nb = (size_t)g.x * g.y * g.z;
  bool const rev_b = rnd() & 1, rev_t = rnd() & 1;
  size_t const off = rnd();
  for (size_t k = 0; k < nb; ++k) {
    size_t const j = rev_b ? nb - 1 - k : k;
    block_idx.x = j % g.x;
    block_idx.y = j / g.x % g.y;
    block_idx.z = j / g.x / g.y;
    if (!fibers) {
      for (size_t m = 0; m < nt; ++m) {
        set_thread(rev_t ? nt - 1 - m : m);
        body();
      }
      continue;
    }
    while (stacks.size() < nt) {
      stacks.emplace_back(new char[STACK]);
      ctx.emplace_back();
    }
    memset(shared_mem.data(), 0xff, shared_mem.size() < 65536 ? shared_mem.size() : 65536);
    finished.assign(nt, 0);
    cur_body = &body;
    in_fiber = true;
    for (size_t m = 0; m < nt; ++m) {
      getcontext(&ctx[m]);
      ctx[m].uc_stack.ss_sp = stacks[m].get();
      ctx[m].uc_stack.ss_size = STACK;
      ctx[m].uc_link = nullptr;
      makecontext(&ctx[m], entry, 0);
    }
    size_t left = nt;
    while (left) {
      for (size_t m = 0; m < nt; ++m) {
        size_t const i = rev_t ? (nt - 1 - m + off) % nt : (m + off) % nt;
        if (finished[i]) continue;
        cur = i;
        set_thread(i);
        swapcontext(&main_ctx, &ctx[i]);
        if (finished[i]) --left;
      }
    }
    in_fiber = false;
  }
}

void launch(dim3 g, dim3 b, size_t shm, cudaStream_t s, bool fibers,
            void (*run)(void *), void (*free)(void *), void *f) {
  std::shared_ptr<void> keep(f, free);
  std::function<void()> body = [keep, run] { run(keep.get()); };
  size_t const nt = (size_t)b.x * b.y * b.z;
  if (!g.x || !g.y || !g.z || !nt || nt > 1024 || b.z > 64 || g.y > 65535 ||
      g.z > 65535 || g.x > 2147483647u || shm > 48 * 1024) {
    last_error = cudaErrorInvalidConfiguration;
    return;
  }
  n_launches++;
  enqueue(s, [=] { run_kernel(g, b, fibers, body); });
}

cudaError_t to_symbol(void *sym, size_t size, size_t off, void const *src, size_t n,
                      cudaStream_t stm, bool async) {
  if (n > size - off) return cudaErrorInvalidValue;
  size_t k = 0;
  while (k < symbols.size() && symbols[k].p != sym) ++k;
  if (k == symbols.size()) {
    Symbol s;
    s.p = sym;
    s.host.resize(size);
    memcpy(s.host.data(), sym, size);
    s.device = s.host;
    symbols.push_back(std::move(s));
  }
  if (async) {  // the source must stay as it is until then
    enqueue(stm, [=] { memcpy((char *)sym + off, src, n); });
    return cudaSuccess;
  }
  drain(&stream0);  // the default stream waits for what came before
  memcpy(symbols[k].device.data() + off, src, n);
  return cudaSuccess;
}
}  // namespace dw_emu

using namespace dw_emu;

cudaError_t cudaSetDevice(int d) { return d == 0 ? cudaSuccess : cudaErrorInvalidDevice; }
cudaError_t cudaGetDevice(int *d) {
  *d = 0;
  return cudaSuccess;
}
cudaError_t cudaPeekAtLastError() { return last_error; }
cudaError_t cudaGetLastError() {
  cudaError_t e = last_error;
  last_error = cudaSuccess;
  return e;
}
char const *cudaGetErrorString(cudaError_t e) { return e ? "error" : "no error"; }
cudaError_t cudaDeviceSynchronize() {
  until([] {
    for (auto *s : streams)
      if (!s->q.empty()) return false;
    return true;
  });
  return cudaSuccess;
}
cudaError_t cudaStreamCreateWithFlags(cudaStream_t *s, unsigned int) {
  *s = new CUstream_st;
  streams.push_back(*s);
  return cudaSuccess;
}
cudaError_t cudaStreamCreate(cudaStream_t *s) { return cudaStreamCreateWithFlags(s, 0); }
cudaError_t cudaStreamDestroy(cudaStream_t s) {
  if (!s) return cudaErrorInvalidResourceHandle;
  s->destroyed = true;  // what is queued still runs
  return cudaSuccess;
}
cudaError_t cudaStreamSynchronize(cudaStream_t s) {
  drain(st(s));
  return cudaSuccess;
}
cudaError_t cudaStreamWaitEvent(cudaStream_t s, cudaEvent_t e, unsigned int) {
  if (!e) return cudaErrorInvalidResourceHandle;
  if (e->last) st(s)->q.push_back(Op{nullptr, nullptr, e->last});
  return cudaSuccess;
}
cudaError_t cudaEventCreateWithFlags(cudaEvent_t *e, unsigned int) {
  *e = new CUevent_st;
  return cudaSuccess;
}
cudaError_t cudaEventCreate(cudaEvent_t *e) { return cudaEventCreateWithFlags(e, 0); }
cudaError_t cudaEventDestroy(cudaEvent_t e) {
  if (!e) return cudaErrorInvalidResourceHandle;
  delete e;
  return cudaSuccess;
}
cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t s) {
  if (!e) return cudaErrorInvalidResourceHandle;
  e->last = std::make_shared<bool>(false);
  st(s)->q.push_back(Op{nullptr, e->last, nullptr});
  return cudaSuccess;
}
cudaError_t cudaEventSynchronize(cudaEvent_t e) {
  Token t = e->last;
  if (t) until([t] { return *t; });
  return cudaSuccess;
}
cudaError_t cudaMemcpyAsync(void *d, void const *s, size_t n, cudaMemcpyKind,
                            cudaStream_t stm) {
  enqueue(stm, [=] { memcpy(d, s, n); });
  return cudaSuccess;
}
cudaError_t cudaMemcpy(void *d, void const *s, size_t n, cudaMemcpyKind) {
  drain(&stream0);
  memcpy(d, s, n);
  return cudaSuccess;
}
cudaError_t cudaMemsetAsync(void *d, int v, size_t n, cudaStream_t stm) {
  enqueue(stm, [=] { memset(d, v, n); });
  return cudaSuccess;
}
cudaError_t cudaMemset(void *d, int v, size_t n) {
  drain(&stream0);
  memset(d, v, n);
  return cudaSuccess;
}
cudaError_t cudaMallocBytes(void **p, size_t n) {
  *p = malloc(n);
  if (*p) memset(*p, 0xff, n);
  return *p || !n ? cudaSuccess : cudaErrorMemoryAllocation;
}
cudaError_t cudaFree(void *p) {
  cudaDeviceSynchronize();
  free(p);
  return cudaSuccess;
}
cudaError_t cudaFreeAsync(void *p, cudaStream_t stm) {
  enqueue(stm, [=] { free(p); });
  return cudaSuccess;
}
cudaError_t cudaStreamQuery(cudaStream_t s) {
  drain(st(s));  // as good as any other time
  return cudaSuccess;
}
cudaError_t cudaEventQuery(cudaEvent_t e) { return cudaEventSynchronize(e); }
cudaError_t cudaStreamCreateWithPriority(cudaStream_t *s, unsigned int f, int) {
  return cudaStreamCreateWithFlags(s, f);
}

extern "C" {
void dw_emu_seed(uint64_t s) {
  rng = s * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  for (int i = 0; i < 8; ++i) rnd();
}
// What PyTorch does next waits for the current (default) stream only.
void dw_emu_join() { drain(&stream0); }
// The number of operations of other streams nobody has waited for; runs them.
uint64_t dw_emu_leftover() {
  uint64_t n = 0;
  for (auto *s : streams)
    for (auto &op : s->q)
      if (op.run) ++n;
  cudaDeviceSynchronize();
  return n;
}
int dw_emu_last_error() { return (int)cudaGetLastError(); }
uint64_t dw_emu_launches() { return n_launches; }
uint64_t dw_emu_choices() { return n_blocked; }
}
