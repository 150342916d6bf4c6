// Concrete schedules of the work dispatcher (threads.h as compiled from /repo): random and real interleavings of claims,
// delayed completions.  Prints FAIL lines with the schedule, and the number of cases.
#include "threads.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <atomic>
#include <unistd.h>
#include <signal.h>
void* g_cMathWorker = NULL;
static uint64_t rs;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static int64_t R(int64_t n) { return (int64_t)(rnd() % (uint64_t)n); }
struct Claim { int core; int64_t wb, len; };
struct Case { int mode; int64_t n; int M; int req; int zig; uint64_t seed; };
static Case cur;
static std::vector<Claim> log_;
static std::atomic<int64_t> completed(0);
static std::atomic<int> pending(0);
static int fails = 0, cases = 0;
static void fail(const char* what, int64_t a, int64_t b) {
    printf("FAIL {\"what\":\"%s\",\"a\":%lld,\"b\":%lld,\"mode\":%d,\"n\":%lld,\"workers\":%d,\"requested\":%d,\"zigzag\":%d,\"seed\":%llu}\n", what, (long long)a, (long long)b, cur.mode, (long long)cur.n, cur.M, cur.req, cur.zig, (unsigned long long)cur.seed);
    fflush(stdout);
    if (++fails > 5) exit(0);
}
static void onalarm(int) { fail("does not return (waits for blocks that were never handed out, or loops)", 0, 0); exit(0); }
static int64_t claim1(stMATH_WORKER_ITEM* it, int core, int64_t* wb) {
    if (cur.mode == 0) return it->GetNextWorkBlockCore(core, wb);
    if (cur.mode == 1) return it->GetNextWorkBlock(wb);
    int64_t v = it->GetNextWorkIndex(wb);
    if (v > 0) *wb = v - 1;
    return v;
}
struct Delay { stMATH_WORKER_ITEM* it; int k; };
static void* delayed(void* p) {
    Delay* d = (Delay*)p;
    for (int i = 0; i < d->k; i++) { usleep(300); completed++; d->it->CompleteWorkBlock(1); }
    pending--; delete d; return NULL;
}
struct Par { stMATH_WORKER_ITEM* it; int core; std::vector<Claim> l; uint64_t s; };
static void* par(void* p) {
    Par* q = (Par*)p; int64_t wb, len; uint64_t s = q->s;
    while ((len = claim1(q->it, q->core, &wb)) > 0) {
        q->l.push_back({q->core, wb, len});
        s = s*6364136223846793005ULL + 1442695040888963407ULL; if ((s >> 60) == 0) sched_yield();
        completed++; q->it->CompleteWorkBlock(q->core);
    }
    return NULL;
}
static bool parallel;
static int64_t work(stMATH_WORKER_ITEM* it, int core, int64_t) {
    int W = (int)it->ThreadWakeup;
    int64_t limit = 4 + (cur.mode == 2 ? cur.n : cur.n/0x4000);
    if (parallel) {
        std::vector<Par> ps(W + 1);
        std::vector<pthread_t> th(W + 1);
        for (int c = 0; c <= W; c++) { ps[c].it = it; ps[c].core = c; ps[c].s = rnd(); }
        for (int c = 1; c <= W; c++) pthread_create(&th[c], NULL, par, &ps[c]);
        par(&ps[0]);
        for (int c = 1; c <= W; c++) pthread_join(th[c], NULL);
        for (auto& q : ps) for (auto& x : q.l) log_.push_back(x);
    } else {
        std::vector<int> alive; for (int c = 0; c <= W; c++) alive.push_back(c);
        int64_t wb = -12345, len;
        // some workers never show up
        if (W && R(3) == 0) { int drop = (int)R(W); while (drop-- && alive.size() > 1) alive.erase(alive.begin() + 1 + R(alive.size() - 1)); }
        while (!alive.empty() && (int64_t)log_.size() <= limit) {
            int i = (int)R(alive.size()); int c = alive[i];
            if ((len = claim1(it, c, &wb)) > 0) log_.push_back({c, wb, len});
            else alive.erase(alive.begin() + i);
        }
    }
    // coverage
    int64_t bs = cur.mode == 2 ? 1 : 0x4000, nb = (cur.n + bs - 1)/bs;
    std::vector<char> seen(nb, 0);
    bool okc = true;
    for (auto& c : log_) {
        if (c.wb < 0 || c.wb >= nb) { fail("a block outside the range is handed out", c.wb, nb); okc = false; break; }
        if (seen[c.wb]++) { fail("a block is handed out twice", c.wb, c.core); okc = false; break; }
        int64_t want = cur.mode == 2 ? c.wb + 1 : (c.wb == nb - 1 ? cur.n - c.wb*bs : bs);
        if (c.len != want) { fail("a block has the wrong length", c.wb, c.len); okc = false; break; }
    }
    if (okc) for (int64_t i = 0; i < nb; i++) if (!seen[i]) { fail("a block is never handed out", i, nb); okc = false; break; }
    if (!okc) { it->BlocksCompleted = 1LL << 60; completed = nb; return 1; }
    if (!parallel) {
        int64_t later = R(2) ? R(nb > 3 ? 3 : nb) + 1 : 0; if (later > nb) later = nb;
        for (int64_t i = 0; i < nb - later; i++) { completed++; it->CompleteWorkBlock(0); }
        if (later) { pending++; pthread_t t; pthread_create(&t, NULL, delayed, new Delay{it, (int)later}); pthread_detach(t); }
    }
    return 1;
}
int main(int argc, char** argv) {
    uint64_t seed = strtoull(argv[1], 0, 10); double budget = atof(argv[2]);
    CMathWorker* w = new CMathWorker();
    g_cMathWorker = w;
    signal(SIGALRM, onalarm);
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (uint64_t k = 0;; k++) {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((t1.tv_sec - t0.tv_sec) + 1e-9*(t1.tv_nsec - t0.tv_nsec) > budget) break;
        rs = (seed*1000003 + k)*0x9E3779B97F4A7C15ULL | 1; rnd(); rnd();
        cur.seed = k; cur.mode = (int)R(3); cur.M = (int)R(15); cur.req = R(2) ? (int)R(18) - 1 : 0;
        int zs[3] = {0, 3, 2}; cur.zig = zs[R(3)];
        if (cur.mode == 2) cur.n = 1 + R(60);
        else { int64_t b = 1 + R(R(4) ? 40 : 3); int64_t d[5] = {0, 1, -1, R(0x4000), 0x2000}; cur.n = b*0x4000 + d[R(5)]; if (cur.n < 1) cur.n = 1; }
        w->GlobalWorkerParams.FutexWakeCount = cur.M; w->GlobalWorkerParams.ZigZag = cur.zig;
        log_.clear(); completed = 0; parallel = R(4) == 0;
        stMATH_WORKER_ITEM* it = w->GetWorkItemCount(cur.n);
        if (!it) { fail("no work item although threading is on", 0, 0); continue; }
        it->DoWorkCallback = work; it->WorkCallbackArg = &cur;
        if (it->WorkIndex <= 0 || it != &w->pWorkerRings[0]->WorkerQueue[it->WorkIndex & 1023]) fail("work item and its index do not match", it->WorkIndex, 0);
        alarm(10);
        if (cur.mode == 2) w->WorkMain(it, cur.n, cur.req, 1, false); else w->WorkMain(it, cur.n, cur.req);
        alarm(0);
        int64_t bs = cur.mode == 2 ? 1 : 0x4000, nb = (cur.n + bs - 1)/bs, c = completed;
        if (c < nb) fail("returns before all blocks are completed", c, nb);
        while (pending) usleep(50);
        int W = (int)it->ThreadWakeup;
        if (W < 0 || W > 14 || W > cur.M) fail("more workers than configured", W, cur.M);
        for (int p = 0; p < 4; p++) {
            int need = p == 0 ? 0 : 4*p;      // first core of the pool
            stWorkerPool& P = w->pWorkerRings[0]->Pool[p];
            if (P.WorkIndexCompleted < P.WorkIndex) fail("a finished item stays announced", p, P.WorkIndex);
        }
        cases++;
    }
    printf("CASES %d\n", cases);
    fflush(stdout);
    _exit(0);
}
