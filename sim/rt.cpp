// The simulator's runtime. It owns every source of nondeterminism the library could meet:
// it is called back before every memory access and at every basic block of the instrumented
// library code, decides which thread runs next, injects faults, and watches the memory.
// This file is not instrumented.
#include <array>
#include <algorithm>
#include <cerrno>
#include <cfenv>
#include <climits>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <linux/futex.h>
#include <locale>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <malloc.h>
#include <unordered_map>

#include "spec.hpp"

extern "C" char __data_start[], _end[];

namespace sim
{
    Shm*              shm;
    const char* const op_name[NOPKINDS] = {"new", "adv", "copy", "move", "assign", "massign", "begin", "drop", "range", "obs", "resume", "fill", "edit", "ambient", "advn", "burst", "barrier", "scan"};
    const char* const fault_name[F_NKINDS] = {"interrupt", "abandon", "kill", "neigh", "alloc"};

    namespace
    {
        enum SlotState
        {
            EMPTY,
            LIVE,
            LOST
        };
        struct Slot
        {
            int         st, def, text;
            const char *b, *e; // its query window
            uint64_t    gen;   // of the text's size
        };
        struct Frame // one script being executed: a thread's, or a nested one
        {
            Slot  slot[NSLOT];
            char* mem;
        };
        struct Th
        {
            int                    tid;
            const std::vector<Op>* script;
            int                    op;
            int                    nest;
            int64_t                base;  // G.count - base = steps of the current call
            int64_t                saved; // steps of the current call while switched out
            int64_t                hot, forced;
            int64_t                limit;
            bool                   done, killed, in_call;
            const void*            blocked;
            volatile int           go;
            jmp_buf                env;
            uint64_t               stack_lo, stack_hi, frame;
            uint64_t               cur_lo, cur_hi;
            const char *           wb, *we; // query window of the current call
            int                    prio;
            pthread_t              th;
            Frame                  fr[MAXDEPTH + 1];
            uint64_t               vc[MAXT];
            int                    alloc_fail; // fault of the current call: -1 all, n the n-th
            int                    allocs;
            bool                   alloc_armed;
            int16_t                execs, curex; // of nested scripts
            int                    depth;
            int                    lv_nest[MAXDEPTH + 1], lv_op[MAXDEPTH + 1], lv_ex[MAXDEPTH + 1];
            int64_t                again; // steps of earlier attempts of this call, abandoned one after the other
            bool                   redo;
            bool                   in_heap; // holds the lock of its heap
        };
        struct TextState
        {
            char *      lo, *hi; // mapped
            char *      b, *e;
            uint64_t    gen;
            const Text* t;
        };
        struct Byte
        {
            int      wt;
            uint64_t wc;
            bool     watomic;
            uint64_t rc[MAXT];
            bool     ratomic[MAXT];
        };
        struct Cell
        {
            Byte b[8];
        };

        // the simulator's own memory never comes from the simulated heap
        template<typename T>
        struct Own
        {
            using value_type = T;
            Own()            = default;
            template<typename U>
            Own(const Own<U>&) {}
            T*   allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); }
            void deallocate(T* p, size_t) { free(p); }
            bool operator==(const Own&) const { return true; }
        };
        template<typename T>
        using Map = std::unordered_map<uint64_t, T, std::hash<uint64_t>, std::equal_to<uint64_t>, Own<std::pair<const uint64_t, T>>>;

        struct Globals
        {
            bool        on; // instrumented code is running under the simulator
            int64_t     count, next;
            Th*         cur;
            const Spec* spec;
            int         checks;
            bool        neighs; // the bytes around the texts are rewritten
            Th          th[MAXT];
            int         nth;
            TextState   tx[NTEXT];
            Rng         rng;
            int64_t     pct[64];
            int         npct, pcti;
            int         lowprio;
            int64_t     total_limit;
            int         ambient;
            uint64_t    clock, rnd;
            char*       heap;
            volatile int finished;
            volatile int event;    // wakes the process's first thread
            int          reap, next_on; // a thread that has ended, and who runs next
            Slot         share[NSHARE];
            char         barrier;
            pthread_key_t at_exit;
            bool        fired[256];
            int         rep[256];      // times an abandonment was repeated
            int64_t     rep_step[256]; // where it happened first
            Map<Cell>*                       shadow;
            Map<std::array<uint64_t, MAXT>>* sync;
            Map<int>*                        owner; // locks: thread + 1, readers negative
            Map<int>*                        recursive;
            uint64_t    pc;
            int         nested_depth;
            bool        lens;
            bool        fences; // someone orders relaxed accesses by fences
            int         paint;
        } G;

        char altstacks[MAXT + 1][16384] __attribute__((aligned(64)));

        void fut_wait(volatile int* p, int v) { syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
        void fut_wake(volatile int* p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

        int64_t steps_of(const Th& t) { return G.count - t.base; }

        [[noreturn]] void stop(int state, const char* kind, const char* fmt, ...)
        {
            G.on = false;
            if (shm->state == 0)
            {
                va_list ap;
                va_start(ap, fmt);
                snprintf(shm->kind, sizeof shm->kind, "%s", kind);
                vsnprintf(shm->detail, sizeof shm->detail, fmt, ap);
                va_end(ap);
                if (G.cur)
                {
                    shm->v_tid  = G.cur->tid;
                    shm->v_op   = G.cur->op;
                    shm->v_nest = G.cur->nest;
                    shm->v_step = steps_of(*G.cur);
                }
                shm->v_pc  = G.pc;
                shm->steps = static_cast<uint64_t>(G.count);
                shm->state = state;
            }
            _exit(state == 2 ? 3 : 4);
        }

        Rec* rec(Th& t, int what)
        {
            if (shm->nrec >= static_cast<int>(sizeof shm->recs / sizeof *shm->recs)) stop(3, "history-full", "history too long");
            Rec* r = &shm->recs[shm->nrec++];
            memset(r, 0, sizeof *r);
            r->tid  = static_cast<int8_t>(t.tid);
            r->nest = static_cast<int8_t>(t.nest);
            r->op   = static_cast<int16_t>(t.op);
            r->what = static_cast<int8_t>(what);
            r->ex   = t.curex;
            return r;
        }

        void site(uint64_t pc)
        {
            if (shm->nsites < 512) shm->sites[shm->nsites++] = pc;
        }

        bool runnable(const Th& t) { return !t.done && !t.killed && !t.blocked; }

        // ---- scheduling --------------------------------------------------------------

        // The step of the current call at which a fault happens; each repetition of an abandonment as late as the first
        int64_t due(const Th& t, size_t i) { return G.rep[i] ? t.again + G.rep_step[i] : G.spec->faults[i].step; }

        void arm(Th& t) // when is the scheduler needed next?
        {
            int64_t n = t.base + t.limit + 1;
            if (G.total_limit < n) n = G.total_limit;
            if (t.nest || t.in_call)
            {
                const int64_t s = steps_of(t);
                for (size_t i = 0; i < G.spec->faults.size(); ++i)
                {
                    const Fault& f = G.spec->faults[i];
                    const int64_t at = due(t, i);
                    if (!G.fired[i] && f.tid == t.tid && f.lvl == t.depth && f.op == t.op && at > s && t.base + at < n) n = t.base + at;
                }
            }
            if (t.nest == 0 && t.in_call)
            {
                const int64_t s = steps_of(t);
                if (!G.spec->gen)
                {
                    for (const Switch& w: G.spec->switches)
                        if (w.tid == t.tid && w.op == t.op && w.step > s && t.base + w.step < n) n = t.base + w.step;
                }
                else if (G.spec->policy.kind == 2)
                {
                    if (G.pcti < G.npct && G.pct[G.pcti] < n) n = G.pct[G.pcti] > G.count ? G.pct[G.pcti] : G.count + 1;
                }
                else if (G.spec->policy.kind == 1)
                {
                    const int64_t k = G.count + G.rng.geom(G.spec->policy.mean);
                    if (k < n) n = k;
                }
            }
            G.next = n;
        }

        void record_switch(int tid, int op, int64_t step, int to)
        {
            ++shm->nswitch;
            shm->sched_hash = mix(shm->sched_hash, static_cast<uint64_t>(tid) << 56 ^ static_cast<uint64_t>(op) << 40 ^ static_cast<uint64_t>(step) << 4 ^ static_cast<uint64_t>(to));
            if (shm->ntrace_s < static_cast<int>(sizeof shm->tr_s / sizeof *shm->tr_s)) shm->tr_s[shm->ntrace_s] = Switch {tid, op, step, to};
            else stop(3, "schedule-full", "more than %d switches", shm->ntrace_s);
            ++shm->ntrace_s;
        }

        void give(Th& me, Th& to) // hand the processor to another thread and wait for our turn
        {
            me.saved = steps_of(me);
            G.cur    = &to;
            to.base  = G.count - to.saved;
            arm(to);
            __atomic_store_n(&to.go, 1, __ATOMIC_SEQ_CST);
            fut_wake(&to.go);
            while (!__atomic_load_n(&me.go, __ATOMIC_SEQ_CST)) fut_wait(&me.go, 0);
            __atomic_store_n(&me.go, 0, __ATOMIC_SEQ_CST);
        }

        int candidates(int* out, int except)
        {
            int n = 0;
            for (int i = 0; i < G.nth; ++i)
                if (i != except && runnable(G.th[i])) out[n++] = i;
            return n;
        }

        void finish()
        {
            __atomic_store_n(&G.finished, 1, __ATOMIC_SEQ_CST);
            __atomic_store_n(&G.event, 1, __ATOMIC_SEQ_CST);
            fut_wake(&G.event);
        }

        // Everyone who still runs is at the barrier: they all know what all did before
        bool open_barrier()
        {
            bool any = false;
            for (int i = 0; i < G.nth; ++i)
            {
                const Th& t = G.th[i];
                if (t.done || t.killed) continue;
                if (t.blocked != &G.barrier) return false;
                any = true;
            }
            if (!any) return false;
            uint64_t all[MAXT] = {};
            for (int i = 0; i < G.nth; ++i)
                for (int k = 0; k < MAXT; ++k)
                    if (G.th[i].vc[k] > all[k]) all[k] = G.th[i].vc[k];
            for (int i = 0; i < G.nth; ++i)
            {
                Th& t = G.th[i];
                if (t.blocked != &G.barrier) continue;
                t.blocked = nullptr;
                memcpy(t.vc, all, sizeof all);
                ++t.vc[i];
            }
            return true;
        }

        // The current thread cannot go on (done, killed or blocked)
        void forced(Th& me)
        {
            int       c[MAXT];
            if (me.done || me.killed) open_barrier();
            const int n = candidates(c, me.tid);
            if (n == 0)
            {
                bool waiting = false;
                for (int i = 0; i < G.nth; ++i) waiting |= !G.th[i].done && !G.th[i].killed && G.th[i].blocked;
                if (waiting)
                    stop(G.checks & CK_STUCK ? 2 : 3, "stuck", "no thread can make progress: a caller waits for another that will never continue");
                finish();
                if (me.done) return;
                for (;;) pause(); // killed: the process ends without this thread
            }
            const int64_t step = -(++me.forced);
            int           to   = -1;
            if (G.spec->gen)
            {
                if (G.spec->policy.kind == 2)
                {
                    for (int i = 0; i < n; ++i)
                        if (to < 0 || G.th[c[i]].prio > G.th[to].prio) to = c[i];
                }
                else
                    to = c[G.rng.below(static_cast<uint64_t>(n))];
            }
            else
            {
                for (const Switch& w: G.spec->switches)
                    if (w.tid == me.tid && w.op == me.op && w.step == step && w.to < G.nth && w.to != me.tid && runnable(G.th[w.to])) to = w.to;
                if (to < 0) to = c[0];
            }
            record_switch(me.tid, me.op, step, to);
            if (me.done) // the first thread waits for the end of this one, then lets the other go on
            {
                Th& o     = G.th[to];
                G.cur     = &o;
                o.base    = G.count - o.saved;
                arm(o);
                G.reap    = me.tid;
                G.next_on = to;
                __atomic_store_n(&G.event, 1, __ATOMIC_SEQ_CST);
                fut_wake(&G.event);
                return;
            }
            const bool on = G.on;
            give(me, G.th[to]);
            G.on = on;
        }

        void preempt(Th& me, int to)
        {
            record_switch(me.tid, me.op, steps_of(me), to);
            site(G.pc);
            const uint64_t pc = G.pc;
            give(me, G.th[to]);
            G.pc = pc;
        }

        void run_script(Th& t, const std::vector<Op>& s, int nest);

        void paint_sides(TextState& x, int pat)
        {
            // deterministic hostile bytes; pat selects which
            const std::string& l = x.t->left;
            const std::string& r = x.t->right;
            static const char  more[] = "a1 \n0z-_A\t:.9bZ,\r\f";
            const size_t       lim = 256;
            const size_t       nl = static_cast<size_t>(x.b - x.lo) < lim ? static_cast<size_t>(x.b - x.lo) : lim;
            const size_t       nr = static_cast<size_t>(x.hi - x.e) < lim ? static_cast<size_t>(x.hi - x.e) : lim;
            for (size_t i = 0; i < nl; ++i)
                x.b[-1 - static_cast<long>(i)] = pat ? more[(i * 7 + static_cast<size_t>(pat)) % (sizeof more - 1)] : l.empty() ? 0 : l[l.size() - 1 - i % l.size()];
            for (size_t i = 0; i < nr; ++i) x.e[i] = pat ? more[(i * 5 + static_cast<size_t>(pat)) % (sizeof more - 1)] : r.empty() ? 0 : r[i % r.size()];
        }

        // Can this query be passed as the string literal it is?
        bool literal_at(int text, const char* b, const char* e)
        {
            return b && e < G.tx[text].hi && *e == 0 && static_cast<size_t>(e - b) < LITERAL_MAX && !(G.checks & CK_BOUNDS) && !G.neighs;
        }

        Slot& slot_of(Frame& f, int i) { return i < NSLOT ? f.slot[i] : G.share[i - NSLOT]; }

        void lose(Frame& f, const Op& o) // the cursors a call that did not end was working on
        {
            if (o.k == NEW || o.k == RESUME || o.k == ADV || o.k == ADVN || o.k == BURST || o.k == COPY || o.k == MOVE || o.k == BEGIN || o.k == ASSIGN || o.k == MASSIGN || o.k == DROP) slot_of(f, o.a).st = LOST;
            if ((o.k == MOVE || o.k == MASSIGN) && slot_of(f, o.b).st == LIVE) slot_of(f, o.b).st = LOST;
        }

        bool repeatable(int op) { return op == NEW || op == RANGE || op == BURST; }

        void fire(Th& t, size_t i)
        {
            const Fault& f = G.spec->faults[i];
            G.fired[i]     = true;
            ++shm->fired[f.kind];
            if (!G.rep[i] && shm->ntrace_f < 64) shm->tr_f[shm->ntrace_f++] = Fault {f.kind, f.tid, f.op, steps_of(t), f.arg, f.lvl};
            site(G.pc);
            switch (f.kind)
            {
                case F_INTERRUPT:
                {
                    if (static_cast<size_t>(f.arg) >= G.spec->nested.size() || t.depth >= MAXDEPTH) break;
                    const int64_t c0 = G.count, lim = t.limit;
                    const char *  wb = t.wb, *we = t.we;
                    const auto    pc = G.pc;
                    const bool    aa = t.alloc_armed;
                    const int     af = t.alloc_fail, an = t.allocs;
                    const int     op = t.op, nest = t.nest;
                    const int16_t ex = t.curex;
                    const bool    in = t.in_call;
                    const int64_t base = t.base, hot = t.hot, forc = t.forced;
                    t.alloc_armed = false;
                    ++t.depth;
                    run_script(t, G.spec->nested[static_cast<size_t>(f.arg)], 1 + static_cast<int>(f.arg));
                    --t.depth;
                    t.op          = op;
                    t.alloc_armed = aa;
                    t.alloc_fail  = af;
                    t.allocs      = an;
                    t.nest        = nest;
                    t.curex       = ex;
                    t.in_call     = in;
                    t.hot         = hot;
                    t.forced      = forc;
                    t.limit       = lim;
                    t.wb          = wb;
                    t.we          = we;
                    t.base        = base + (G.count - c0);
                    G.pc = pc;
                    break;
                }
                case F_ABANDON:
                    if (G.rep[i] < f.arg && f.lvl == 0 && t.depth == 0 && repeatable(G.spec->thr[static_cast<size_t>(t.tid)][static_cast<size_t>(t.op)].k))
                    {
                        if (!G.rep[i]++) G.rep_step[i] = steps_of(t) - t.again;
                        G.fired[i] = false; // once more
                        t.redo     = true;
                    }
                    for (int k = 1; k <= t.depth; ++k)
                    {
                        Rec* r  = rec(t, 3);
                        r->nest = static_cast<int8_t>(t.lv_nest[k]);
                        r->op   = static_cast<int16_t>(t.lv_op[k]);
                        r->ex   = static_cast<int16_t>(t.lv_ex[k]);
                    }
                    G.on = false;
                    longjmp(t.env, 1);
                case F_KILL:
                    if (t.depth) break;
                    rec(t, 5);
                    lose(t.fr[0], G.spec->thr[static_cast<size_t>(t.tid)][static_cast<size_t>(t.op)]);
                    shm->opsteps[t.tid][t.op] = steps_of(t);
                    t.killed = true;
                    forced(t);
                    break;
                case F_NEIGH:
                    for (auto& x: G.tx)
                        if (x.t) paint_sides(x, static_cast<int>(f.arg));
                    shm->neigh_writes += 1;
                    break;
                case F_ALLOC: break;
            }
        }

        // Reached only when something is due
        __attribute__((noinline)) void slow()
        {
            G.on  = false;
            Th& t = *G.cur;
            if (G.count >= G.total_limit) stop(3, "run-limit", "run exceeds %lld steps", static_cast<long long>(G.total_limit));
            if (steps_of(t) > t.limit)
                stop(G.checks & CK_STEPS ? 2 : 3, "no-progress", "call not finished after %lld steps", static_cast<long long>(t.limit));
            if (t.nest || t.in_call)
            {
                const int64_t s = steps_of(t);
                for (size_t i = 0; i < G.spec->faults.size(); ++i)
                {
                    const Fault& f = G.spec->faults[i];
                    if (!G.fired[i] && f.tid == t.tid && f.lvl == t.depth && f.op == t.op && due(t, i) == s && f.kind != F_ALLOC) fire(t, i);
                }
            }
            if (t.nest == 0 && t.in_call)
            {
                const int64_t s = steps_of(t);
                if (!G.spec->gen)
                {
                    for (const Switch& w: G.spec->switches)
                        if (w.tid == t.tid && w.op == t.op && w.step == s && w.to >= 0 && w.to < G.nth && w.to != t.tid && runnable(G.th[w.to]))
                        {
                            preempt(t, w.to);
                            break;
                        }
                }
                else if (G.spec->policy.kind == 2)
                {
                    bool ch = false;
                    while (G.pcti < G.npct && G.pct[G.pcti] <= G.count) ++G.pcti, ch = true;
                    if (ch)
                    {
                        t.prio = --G.lowprio;
                        int c[MAXT], n = candidates(c, t.tid), to = -1;
                        for (int i = 0; i < n; ++i)
                            if (to < 0 || G.th[c[i]].prio > G.th[to].prio) to = c[i];
                        if (to >= 0) preempt(t, to);
                    }
                }
                else if (G.spec->policy.kind == 1)
                {
                    int c[MAXT], n = candidates(c, t.tid);
                    // events of other kinds also end up here; a few extra switches do no harm
                    if (n) preempt(t, c[G.rng.below(static_cast<uint64_t>(n))]);
                }
            }
            arm(t);
            G.on = true;
        }

        inline void tick()
        {
            if (++G.count >= G.next) slow();
        }

        // ---- memory ------------------------------------------------------------------

        uint64_t joined(const Th& t, int other) { return t.vc[other]; }

        __attribute__((noinline)) void race(Th& t, uint64_t a, size_t n, bool w, bool atomic)
        {
            for (size_t i = 0; i < n; ++i)
            {
                Byte& b = (*G.shadow)[(a + i) >> 3].b[(a + i) & 7];
                ++shm->races_checked;
                const char* what  = nullptr;
                int         other = -1;
                if (b.wt && b.wt - 1 != t.tid && b.wc > joined(t, b.wt - 1) && !(atomic && b.watomic))
                {
                    what  = w ? "write after unsynchronised write" : "read after unsynchronised write";
                    other = b.wt - 1;
                }
                if (w && !what)
                    for (int k = 0; k < G.nth; ++k)
                        if (k != t.tid && b.rc[k] > joined(t, k) && !(atomic && b.ratomic[k]))
                        {
                            what  = "write after unsynchronised read";
                            other = k;
                        }
                if (what && (G.checks & CK_RACE))
                    stop(2, "data-race", "%s: threads %d and %d, address 0x%llx (%zu bytes)", what, other, t.tid, static_cast<unsigned long long>(a), n);
                if (w)
                {
                    b.wt      = t.tid + 1;
                    b.wc      = t.vc[t.tid];
                    b.watomic = atomic;
                }
                else
                {
                    b.rc[t.tid]      = t.vc[t.tid];
                    b.ratomic[t.tid] = atomic;
                }
            }
        }

        void acquire(Th& t, const void* p)
        {
            auto it = G.sync->find(reinterpret_cast<uint64_t>(p));
            if (it == G.sync->end()) return;
            for (int i = 0; i < MAXT; ++i)
                if (it->second[static_cast<size_t>(i)] > t.vc[i]) t.vc[i] = it->second[static_cast<size_t>(i)];
        }
        void release(Th& t, const void* p)
        {
            auto& v = (*G.sync)[reinterpret_cast<uint64_t>(p)];
            for (int i = 0; i < MAXT; ++i)
                if (t.vc[i] > v[static_cast<size_t>(i)]) v[static_cast<size_t>(i)] = t.vc[i];
            ++t.vc[t.tid];
        }

        // Memory that others can reach: a scheduling and fault point of special interest
        __attribute__((noinline)) void hot_point(Th& t)
        {
            ++shm->hot;
            if (t.nest == 0 && !t.in_call) return;
            ++t.hot;
            G.on = false;
            for (size_t i = 0; i < G.spec->faults.size(); ++i)
            {
                const Fault& f = G.spec->faults[i];
                if (!G.fired[i] && f.tid == t.tid && f.lvl == t.depth && f.op == t.op && f.step == -t.hot && f.kind != F_ALLOC) fire(t, i);
            }
            if (t.nest == 0 && G.spec->gen && G.spec->policy.hot > 0 && G.rng.chance(G.spec->policy.hot))
            {
                int c[MAXT], n = candidates(c, t.tid);
                if (n) preempt(t, c[G.rng.below(static_cast<uint64_t>(n))]);
            }
            arm(t);
            G.on = true;
        }

        __attribute__((noinline)) void text_access(Th& t, uint64_t a, size_t n, bool w)
        {
            ++shm->text_reads;
            if (w)
            {
                if (G.checks & CK_BOUNDS) stop(2, "input-write", "writes %zu byte(s) into the caller's text at 0x%llx", n, static_cast<unsigned long long>(a));
                hot_point(t);
                return;
            }
            const uint64_t b = reinterpret_cast<uint64_t>(t.wb), e = reinterpret_cast<uint64_t>(t.we);
            if (a < b || a + n > e)
            {
                ++shm->outside_reads;
                if (G.checks & CK_BOUNDS)
                {
                    const uint64_t slot = (a - A_TEXT) / TEXT_STRIDE;
                    if (b && (b - A_TEXT) / TEXT_STRIDE == slot)
                        stop(2, "outside-read", "reads %zu byte(s) at offset %lld of a query of %lld bytes", n, static_cast<long long>(a) - static_cast<long long>(b), static_cast<long long>(e - b));
                    stop(2, "outside-read", "reads %zu byte(s) of a text that is not the query (text %llu)", n, static_cast<unsigned long long>(slot));
                }
            }
        }

        __attribute__((noinline)) void other_access(uint64_t a, size_t n, bool w)
        {
            Th& t = *G.cur;
            if (a >= A_TEXT && a < A_TEXT + NTEXT * TEXT_STRIDE) return text_access(t, a, n, w);
            if (a >= t.cur_lo && a < t.cur_hi) return;
            if (!w && a < reinterpret_cast<uint64_t>(__data_start)) return;
            if (!(a >= t.stack_lo && a < t.stack_hi)) race(t, a, n, w, false); // the thread's own TLS is above its frames
            hot_point(t);
        }

        inline void access(const void* p, size_t n, bool w)
        {
            if (!G.on) return;
            tick();
            const uint64_t a = reinterpret_cast<uint64_t>(p);
            if (a - G.cur->stack_lo < G.cur->frame - G.cur->stack_lo) return;
            other_access(a, n, w);
        }

        // ---- execution of scripts ------------------------------------------------------

        int32_t off(const TextState& x, const char* p)
        {
            if (p < x.b - 100000 || p > x.e + 100000) return INT_MIN;
            return static_cast<int32_t>(p - x.b);
        }

        void fill_text(TextState& x, const std::string& s)
        {
            const size_t cap = static_cast<size_t>(x.hi - x.lo);
            if (s.size() > cap) stop(3, "text-too-long", "text does not fit");
            char* b = x.t->place == 0 ? x.hi - s.size() : x.t->place == 1 ? x.lo : x.lo + (cap - s.size()) / 4;
            if (x.t->place == 3) // small texts half before it, long ones at least begin before it
            {
                char* const edge = reinterpret_cast<char*>((reinterpret_cast<uint64_t>(x.lo) | (TEXT_STRIDE - 1)) + 1);
                b                = std::clamp(edge - s.size() / 2, x.lo, x.hi - s.size());
            }
            if (b != x.b || static_cast<size_t>(x.e - x.b) != s.size()) ++x.gen;
            memcpy(b, s.data(), s.size());
            x.b = b;
            x.e = b + s.size();
            paint_sides(x, 0);
        }

        // A C++ locale whose letters and spaces go on above 127
        struct Latin: std::ctype<char>
        {
            static const mask* table()
            {
                static mask m[table_size];
                const mask* c = classic_table();
                for (size_t i = 0; i < table_size; ++i) m[i] = i < 0xA0 ? c[i] : i == 0xA0 ? space : i >= 0xDF ? lower | alpha | print : i >= 0xC0 ? upper | alpha | print : static_cast<mask>(punct | print);
                return m;
            }
            Latin() : std::ctype<char>(table(), false, 1) {}
            char do_tolower(char c) const override { return c == 'I' ? '\xFD' : std::ctype<char>::do_tolower(c); }
            char do_toupper(char c) const override { return c == 'i' ? '\xDD' : std::ctype<char>::do_toupper(c); }
        };

        void rounding() { fesetround(G.ambient & 128 ? FE_UPWARD : FE_TONEAREST); } // belongs to the thread

        void surroundings() // what else a process can change around the library, while one thread runs
        {
            if (G.spec->phase) return;
            static Latin latin;
            std::locale::global(G.ambient & 3 ? std::locale(std::locale::classic(), &latin) : std::locale::classic());
        }

        void* slot_mem(Frame& f, int i) { return i < NSLOT ? f.mem + i * SLOT_BYTES : reinterpret_cast<char*>(A_SHARE) + (i - NSLOT) * SLOT_BYTES; }

        __attribute__((noinline)) void paint_stack(int pat)
        {
            volatile char a[6144];
            memset(const_cast<char*>(a), pat, sizeof a);
            asm volatile("" ::"r"(a) : "memory");
        }

        void put(Rec* r, const TextState& x, const char* window, const char* window_end, const Obs& o)
        {
            // every view must lie within the query
            if ((o.accepted || o.ml) && !(!window && !o.mb && !o.ml) && (o.mb < window || o.mb + o.ml > window_end)) r->out = 1;
            for (unsigned i = 0; i < o.ng; ++i)
                if (o.gl[i] && (o.gb[i] < window || o.gb[i] + o.gl[i] > window_end)) r->out = 1;
            r->accepted = static_cast<int8_t>(o.accepted);
            r->agree    = static_cast<int8_t>(o.agree);
            r->type     = o.type;
            r->ng       = o.ng;
            if (!o.accepted && o.ml == 0) r->mb = r->me = -1;
            else if (!window && !o.mb && o.ml == 0) r->mb = r->me = 0; // an empty match in a null view
            else
            {
                r->mb = off(x, o.mb);
                r->me = r->mb == INT_MIN ? INT_MIN : r->mb + static_cast<int64_t>(o.ml);
            }
            for (unsigned i = 0; i < o.ng; ++i)
            {
                if (o.gl[i] == 0) r->gb[i] = r->ge[i] = -1;
                else
                {
                    r->gb[i] = off(x, o.gb[i]);
                    r->ge[i] = r->gb[i] == INT_MIN ? INT_MIN : static_cast<int32_t>(r->gb[i] + static_cast<int64_t>(o.gl[i]));
                }
            }
        }

        void begin_call(Th& t, const Def& d, const char* b, const char* e)
        {
            t.wb    = b;
            t.we    = e;
            t.limit = steps_of(t) + static_cast<int64_t>(rt_budget(d, static_cast<uint64_t>(e - b)));
        }

        // One call into the library (several for a range loop), then its observation
        __attribute__((noinline)) void perform(Th& t, Frame& f, const Op& o)
        {
            Rec  r;
            Obs  ob;
            memset(&r, 0, sizeof r);
            memset(&ob, 0, sizeof ob);
            r.tid  = static_cast<int8_t>(t.tid);
            r.nest = static_cast<int8_t>(t.nest);
            r.op   = static_cast<int16_t>(t.op);
            r.ex   = t.curex;
            r.adv  = -1;

            auto push = [&](const Rec& x) {
                if (shm->nrec >= static_cast<int>(sizeof shm->recs / sizeof *shm->recs)) stop(3, "history-full", "history too long");
                shm->recs[shm->nrec++] = x;
            };
            auto skip = [&]() {
                r.what = 6;
                push(r);
            };
            auto ok = [&](int i) {
                Slot& s = slot_of(f, i);
                return s.st == LIVE && s.gen == G.tx[s.text].gen;
            };
            auto skip_from = [&](int src, int dst) { // what would be made of a lost cursor is lost
                if (slot_of(f, src).st == LOST) slot_of(f, dst).st = LOST;
                skip();
            };
            auto start = [&]() {
                paint_stack(G.paint);
                arm(t);
                G.on = true;
            };
            auto show = [&](int i) { // observes slot i, still under the simulator
                Slot&      s = slot_of(f, i);
                const Def& d = *sim_defs[s.def];
                d.observe(slot_mem(f, i), &ob);
                r.ne = static_cast<int8_t>(d.not_end(slot_mem(f, i)));
                G.on = false;
                put(&r, G.tx[s.text], s.b, s.e, ob);
                push(r);
            };

            switch (o.k)
            {
                case NEW:
                case RESUME:
                {
                    Slot n;
                    int  def, text;
                    const char *b, *e;
                    if (o.k == NEW)
                    {
                        def = o.b;
                        text = o.c;
                        b = G.tx[text].b;
                        e = G.tx[text].e;
                        if (b == e && G.tx[text].t->nullq) b = e = nullptr;
                    }
                    else
                    {
                        if (!ok(o.b)) return skip_from(o.b, o.a);
                        Slot& s = slot_of(f, o.b);
                        begin_call(t, *sim_defs[s.def], s.b, s.e);
                        start();
                        sim_defs[s.def]->observe(slot_mem(f, o.b), &ob);
                        G.on = false;
                        const long mb = ob.mb - s.b, me = mb + static_cast<long>(ob.ml);
                        const long n0 = s.e - s.b;
                        if (!ob.accepted || mb < 0 || me > n0) return skip();
                        const long from = o.d ? mb : me + (ob.ml == 0 ? 1 : 0);
                        if (from >= n0) return skip();
                        def  = s.def;
                        text = s.text;
                        b    = s.b + from;
                        e    = s.e;
                    }
                    slot_of(f, o.a).st = LOST;
                    n = Slot {LIVE, def, text, b, e, G.tx[text].gen};
                    memset(slot_mem(f, o.a), G.paint, SLOT_BYTES);
                    begin_call(t, *sim_defs[def], b, e);
                    start();
                    sim_defs[def]->construct(slot_mem(f, o.a), b, e, o.k != NEW ? 0 : o.d == 4 && !literal_at(text, b, e) ? 0 : o.d);
                    slot_of(f, o.a) = n;
                    show(o.a);
                    break;
                }
                case ADV:
                {
                    if (!ok(o.a)) return skip();
                    Slot& s = slot_of(f, o.a);
                    begin_call(t, *sim_defs[s.def], s.b, s.e);
                    s.st = LOST;
                    start();
                    r.adv = static_cast<int8_t>(sim_defs[s.def]->advance(slot_mem(f, o.a), o.d));
                    s.st  = LIVE;
                    show(o.a);
                    break;
                }
                case ADVN:
                {
                    if (!ok(o.a)) return skip();
                    Slot& s = slot_of(f, o.a);
                    for (int k = 0; k < o.b; ++k)
                    {
                        begin_call(t, *sim_defs[s.def], s.b, s.e);
                        s.st = LOST;
                        start();
                        r.adv = static_cast<int8_t>(sim_defs[s.def]->advance(slot_mem(f, o.a), k & 1));
                        s.st  = LIVE;
                        show(o.a);
                        if (!r.accepted) break;
                    }
                    break;
                }
                case BURST:
                {
                    const char *b = G.tx[o.c].b, *e = G.tx[o.c].e;
                    const Def&  d = *sim_defs[o.b];
                    slot_of(f, o.a).st = LOST;
                    for (int k = 0; k < o.d; ++k)
                    {
                        begin_call(t, d, b, e);
                        start();
                        if (k) d.destroy(slot_mem(f, o.a));
                        d.construct(slot_mem(f, o.a), b, e, k & 1);
                        G.on = false;
                    }
                    slot_of(f, o.a) = Slot {LIVE, o.b, o.c, b, e, G.tx[o.c].gen};
                    start();
                    show(o.a);
                    break;
                }
                case COPY:
                case MOVE:
                case BEGIN:
                {
                    if (!ok(o.b) || (o.a == o.b)) return skip_from(o.b, o.a);
                    Slot s = slot_of(f, o.b);
                    begin_call(t, *sim_defs[s.def], s.b, s.e);
                    slot_of(f, o.a).st = LOST;
                    if (o.k == MOVE) slot_of(f, o.b).st = LOST;
                    memset(slot_mem(f, o.a), G.paint, SLOT_BYTES);
                    start();
                    if (o.k == COPY) sim_defs[s.def]->copy(slot_mem(f, o.a), slot_mem(f, o.b));
                    else if (o.k == MOVE) sim_defs[s.def]->move(slot_mem(f, o.a), slot_mem(f, o.b));
                    else sim_defs[s.def]->begin(slot_mem(f, o.a), slot_mem(f, o.b));
                    s.st        = LIVE;
                    slot_of(f, o.a) = s;
                    show(o.a);
                    break;
                }
                case ASSIGN:
                case MASSIGN:
                {
                    if (!ok(o.b) || !ok(o.a) || slot_of(f, o.a).def != slot_of(f, o.b).def || (o.k == MASSIGN && o.a == o.b)) return skip_from(o.b, o.a);
                    Slot s = slot_of(f, o.b);
                    begin_call(t, *sim_defs[s.def], s.b, s.e);
                    slot_of(f, o.a).st = LOST;
                    if (o.k == MASSIGN) slot_of(f, o.b).st = LOST;
                    start();
                    if (o.k == ASSIGN) sim_defs[s.def]->assign(slot_mem(f, o.a), slot_mem(f, o.b));
                    else sim_defs[s.def]->massign(slot_mem(f, o.a), slot_mem(f, o.b));
                    s.st        = LIVE;
                    slot_of(f, o.a) = s;
                    show(o.a);
                    break;
                }
                case DROP:
                {
                    if (!ok(o.a)) return skip();
                    Slot& s = slot_of(f, o.a);
                    begin_call(t, *sim_defs[s.def], s.b, s.e);
                    s.st = LOST;
                    start();
                    sim_defs[s.def]->destroy(slot_mem(f, o.a));
                    G.on = false;
                    memset(slot_mem(f, o.a), 0xDB, SLOT_BYTES);
                    s.st   = EMPTY;
                    r.what = 7;
                    push(r);
                    break;
                }
                case OBS:
                {
                    if (!ok(o.a)) return skip();
                    Slot& s = slot_of(f, o.a);
                    begin_call(t, *sim_defs[s.def], s.b, s.e);
                    start();
                    show(o.a);
                    break;
                }
                case RANGE:
                {
                    const TextState& x = G.tx[o.c];
                    const char *     b = x.b, *e = x.e;
                    if (b == e && x.t->nullq) b = e = nullptr;
                    begin_call(t, *sim_defs[o.b], b, e);
                    t.limit *= e - b < 60 ? e - b + 3 : 64;
                    View*  out = reinterpret_cast<View*>(f.mem + NSLOT * SLOT_BYTES);
                    size_t cap = static_cast<size_t>(e - b) + 2;
                    if (cap > RANGE_CAP) cap = RANGE_CAP;
                    memset(static_cast<void*>(out), 0, sizeof(View) * (cap + 1));
                    start();
                    const size_t n = sim_defs[o.b]->range(b, e, o.d, out, cap);
                    G.on = false;
                    for (size_t i = 0; i < n && i < cap; ++i)
                    {
                        r.what = 1;
                        r.out = !(!b && !out[i].b && !out[i].l) && (out[i].b < b || out[i].b + out[i].l > e);
                        r.accepted = 1;
                        r.agree = 1;
                        r.mb = !b && !out[i].b && !out[i].l ? 0 : off(x, out[i].b);
                        r.me = r.mb == INT_MIN ? INT_MIN : r.mb + static_cast<int64_t>(out[i].l);
                        push(r);
                    }
                    r.what = 2;
                    r.out  = 0;
                    r.mb   = static_cast<int64_t>(n);
                    r.me   = static_cast<int64_t>(cap);
                    push(r);
                    break;
                }
                case SCAN: // all matches of an uninterrupted scan
                {
                    const TextState& x = G.tx[o.c];
                    Slot             n {LIVE, o.b, o.c, x.b, x.e, x.gen};
                    slot_of(f, 0).st = LOST;
                    memset(slot_mem(f, 0), G.paint, SLOT_BYTES);
                    begin_call(t, *sim_defs[o.b], x.b, x.e);
                    start();
                    sim_defs[o.b]->construct(slot_mem(f, 0), x.b, x.e, 0);
                    slot_of(f, 0) = n;
                    show(0);
                    for (int k = 0; k < o.a && r.accepted; ++k)
                    {
                        t.base = G.count;
                        start();
                        r.adv = static_cast<int8_t>(sim_defs[o.b]->advance(slot_mem(f, 0), 0));
                        show(0);
                    }
                    break;
                }
                case FILL: fill_text(G.tx[o.c], o.s); break;
                case EDIT:
                {
                    TextState& x  = G.tx[o.c];
                    long       at = o.a;
                    if (o.d) // somewhere after the match of slot d-1
                    {
                        if (!ok(o.d - 1) || slot_of(f, o.d - 1).text != o.c) return skip();
                        Slot& s = slot_of(f, o.d - 1);
                        begin_call(t, *sim_defs[s.def], s.b, s.e);
                        start();
                        sim_defs[s.def]->observe(slot_mem(f, o.d - 1), &ob);
                        G.on = false;
                        const long me = ob.accepted ? ob.mb + ob.ml - x.b : 0;
                        if (me < 0 || me >= x.e - x.b) return skip();
                        at = me + o.a % (x.e - x.b - me);
                    }
                    if (at < x.e - x.b) x.b[at] = static_cast<char>(o.b);
                    r.what = 7;
                    r.mb   = at;
                    push(r);
                    break;
                }
                case BARRIER:
                {
                    t.blocked = &G.barrier;
                    if (!open_barrier()) forced(t);
                    else
                    {
                        // the last to arrive: it goes on, or another does
                        bool leave = G.spec->gen && G.spec->policy.kind != 0 && G.nth > 1 && G.rng.chance(0.6);
                        if (!G.spec->gen)
                            for (const Switch& w: G.spec->switches) leave |= w.tid == t.tid && w.op == t.op && w.step == -t.forced - 1;
                        int c[MAXT];
                        if (leave && candidates(c, t.tid)) forced(t);
                    }
                    break;
                }
                case AMBIENT:
                    G.ambient = o.a;
                    G.paint   = (o.a >> 8) & 0xff;
                    errno     = o.a & 0x7f;
                    rounding();
                    surroundings();
                    break;
                default: break;
            }
        }

        __attribute__((noinline)) bool guarded(Th& t, Frame& f, const Op& o) // false: abandoned
        {
            if (_setjmp(t.env)) return false;
            perform(t, f, o);
            return true;
        }

        void run_script(Th& t, const std::vector<Op>& s, int nest)
        {
            Frame& f = t.fr[t.depth];
            if (nest)
            {
                t.curex = ++t.execs;
                for (Slot& q: f.slot) q.st = EMPTY;
            }
            for (size_t i = 0; i < s.size(); ++i)
            {
                t.op      = static_cast<int>(i);
                t.nest    = nest;
                t.base    = G.count;
                t.hot     = 0;
                t.forced  = 0;
                if (nest == 0) t.again = 0, t.redo = false;
                t.lv_nest[t.depth] = nest;
                t.lv_op[t.depth]   = t.op;
                t.lv_ex[t.depth]   = t.curex;
                t.in_call = nest == 0;
                if (nest == 0)
                {
                    shm->c_tid    = t.tid;
                    t.alloc_armed = false;
                    t.allocs      = 0;
                    for (size_t k = 0; k < G.spec->faults.size(); ++k)
                    {
                        const Fault& q = G.spec->faults[k];
                        if (q.kind == F_ALLOC && q.tid == t.tid && q.op == t.op)
                        {
                            t.alloc_armed = true;
                            t.alloc_fail  = static_cast<int>(q.arg);
                            if (!G.fired[k])
                            {
                                G.fired[k] = true;
                                ++shm->fired[F_ALLOC];
                                if (shm->ntrace_f < 64) shm->tr_f[shm->ntrace_f++] = q;
                            }
                        }
                    }
                }
                try
                {
                    if (nest != 0) perform(t, f, s[i]);
                    else if (!guarded(t, f, s[i]))
                    {
                        while (t.redo)
                        {
                            t.redo  = false;
                            t.again = steps_of(t);
                            if (guarded(t, f, s[i])) goto made;
                        }
                        t.op    = static_cast<int>(i); // it may have been deep inside a handler
                        t.nest  = 0;
                        t.depth = 0;
                        t.curex = 0;
                        rec(t, 3);
                        lose(f, s[i]);
                    }
                made:;
                }
                catch (...)
                {
                    G.on = false;
                    rec(t, 4);
                    lose(f, s[i]);
                }
                G.on = false;
                if (nest == 0)
                {
                    shm->opsteps[t.tid][t.op] = steps_of(t);
                    if (static_cast<uint64_t>(steps_of(t)) > shm->maxop) shm->maxop = static_cast<uint64_t>(steps_of(t));
                    t.in_call     = false;
                    t.alloc_armed = false;
                }
            }
        }

        void* thread_main(void* p)
        {
            Th&     t = *static_cast<Th*>(p);
            stack_t ss {};
            ss.ss_sp   = altstacks[t.tid];
            ss.ss_size = sizeof altstacks[t.tid];
            sigaltstack(&ss, nullptr);
            t.frame = reinterpret_cast<uint64_t>(__builtin_frame_address(0));
            if (G.spec->ambient0) rounding();
            while (!__atomic_load_n(&t.go, __ATOMIC_SEQ_CST)) fut_wait(&t.go, 0);
            __atomic_store_n(&t.go, 0, __ATOMIC_SEQ_CST);
            run_script(t, *t.script, 0);
            // what the library has destroyed at a thread's end is destroyed under the simulator too
            t.op     = static_cast<int>(t.script->size());
            t.nest   = 0;
            t.base   = G.count;
            t.hot    = 0;
            t.forced = 0;
            t.wb = t.we = nullptr;
            t.limit   = 1000000;
            t.in_call = true;
            pthread_setspecific(G.at_exit, &t);
            arm(t);
            G.on = true;
            return nullptr;
        }

        void thread_gone(void* p) // after all of its thread_local objects
        {
            G.on      = false;
            Th& t     = *static_cast<Th*>(p);
            t.in_call = false;
            t.done    = true;
            forced(t);
        }

        void on_signal(int sig, siginfo_t* si, void*)
        {
            const uint64_t a  = reinterpret_cast<uint64_t>(si->si_addr);
            const bool     in = G.on;
            G.on              = false;
            if (shm->state == 0)
            {
                const char* k = "crash";
                if (sig == SIGSEGV || sig == SIGBUS)
                {
                    if (a >= A_STACK && a < A_STACK + MAXT * STACK_STRIDE) 
                    {
                        const uint64_t o = (a - A_STACK) / STACK_STRIDE;
                        k = o < static_cast<uint64_t>(G.nth) && G.th[o].done ? "thread-gone" : "stack-exhausted";
                    }
                    else if (a >= A_TEXT && a < A_TEXT + NTEXT * TEXT_STRIDE) k = "outside-read";
                }
                if (sig == SIGALRM) k = "wall-limit";
                snprintf(shm->kind, sizeof shm->kind, "%s", k);
                snprintf(shm->detail, sizeof shm->detail, "signal %d at 0x%llx", sig, sig == SIGSEGV || sig == SIGBUS ? static_cast<unsigned long long>(a) : 0ull);
                if (G.cur)
                {
                    shm->v_tid  = G.cur->tid;
                    shm->v_op   = G.cur->op;
                    shm->v_nest = G.cur->nest;
                    shm->v_step = steps_of(*G.cur);
                }
                shm->state = in && sig != SIGALRM ? 2 : 3;
            }
            _exit(5);
        }

        void setup(const Spec& sp, int checks)
        {
            G.on      = false;
            G.count   = 0;
            G.spec    = &sp;
            G.checks  = checks;
            G.neighs  = false;
            for (const Fault& f: sp.faults) G.neighs |= f.kind == F_NEIGH;
            G.rng     = Rng(sp.policy.seed);
            G.shadow  = new Map<Cell>;
            G.sync    = new Map<std::array<uint64_t, MAXT>>;
            G.owner   = new Map<int>;
            G.recursive = new Map<int>;
            G.heap    = reinterpret_cast<char*>(A_HEAP);
            G.total_limit = 60000000;
            G.ambient = sp.ambient0;
            G.paint   = (sp.ambient0 >> 8) & 0xff;
            G.clock   = 1000000007ull;
            G.rnd     = sp.seed ^ 0x5555;
            memset(G.fired, 0, sizeof G.fired);
            memset(G.rep, 0, sizeof G.rep);
            G.finished = 0;
            G.event    = 0;
            G.reap     = -1;
            memset(static_cast<void*>(G.share), 0, sizeof G.share);
            G.nth      = static_cast<int>(sp.thr.size());
            G.npct = G.pcti = 0;
            G.lowprio       = 0;
            if (sp.gen && sp.policy.kind == 2)
            {
                G.npct = sp.policy.points < 64 ? sp.policy.points : 64;
                for (int i = 0; i < G.npct; ++i) G.pct[i] = 1 + static_cast<int64_t>(G.rng.below(sp.policy.horizon));
                for (int i = 0; i < G.npct; ++i)
                    for (int k = i + 1; k < G.npct; ++k)
                        if (G.pct[k] < G.pct[i]) std::swap(G.pct[k], G.pct[i]);
            }
            for (int i = 0; i < NTEXT; ++i)
            {
                TextState& x   = G.tx[i];
                const uint64_t a = A_TEXT + static_cast<uint64_t>(i) * TEXT_STRIDE + 0x1000;
                x.lo = x.b = x.e = reinterpret_cast<char*>(a);
                x.hi             = x.lo + (i == BIG_TEXT ? TEXT_BIG : TEXT_SMALL);
                x.gen            = 0;
                x.t              = nullptr;
            }
            for (auto& [i, tx]: sp.texts)
            {
                G.tx[i].t = &tx;
                fill_text(G.tx[i], tx.content());
            }
            for (int i = 0; i < G.nth; ++i)
            {
                Th& t = G.th[i];
                memset(static_cast<void*>(&t), 0, sizeof t);
                t.tid      = i;
                t.script   = &sp.thr[static_cast<size_t>(i)];
                t.limit    = 1 << 30;
                t.prio     = 1 + i;
                t.stack_hi = A_STACK + static_cast<uint64_t>(i) * STACK_STRIDE + STACK_STRIDE - 0x10000;
                t.stack_lo = t.stack_hi - static_cast<uint64_t>(sp.stack);
                t.cur_lo   = A_CUR + static_cast<uint64_t>(i) * CUR_STRIDE;
                t.cur_hi   = t.cur_lo + CUR_STRIDE;
                for (int k = 0; k <= MAXDEPTH; ++k) t.fr[k].mem = reinterpret_cast<char*>(t.cur_lo) + k * 0x40000;
                for (int k = 0; k < G.nth; ++k) t.vc[k] = k == i ? 1 : 0;
            }
            if (sp.gen)
                for (int i = G.nth - 1; i > 0; --i) std::swap(G.th[i].prio, G.th[G.rng.below(static_cast<uint64_t>(i + 1))].prio);

            struct sigaction sa {};
            sa.sa_sigaction = on_signal;
            sa.sa_flags     = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
            for (int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
            std::set_terminate(abort);
            alarm(60);
        }
    } // namespace

    void rt_map_arena()
    {
        auto map = [](uint64_t a, uint64_t n, int prot) {
            void* p = mmap(reinterpret_cast<void*>(a), n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if (p == MAP_FAILED)
            {
                perror("mmap arena");
                _exit(2);
            }
        };
        map(A_CUR, MAXT * CUR_STRIDE + 0x10000, PROT_READ | PROT_WRITE);
        static_assert(NSHARE * SLOT_BYTES <= 0x10000);
        map(A_HEAP, HEAP_SIZE, PROT_READ | PROT_WRITE);
        for (uint64_t i = 0; i < NTEXT; ++i)
        {
            const uint64_t a = A_TEXT + i * TEXT_STRIDE, n = i == BIG_TEXT ? TEXT_BIG : TEXT_SMALL;
            map(a, 0x1000, PROT_NONE);
            map(a + 0x1000, n, PROT_READ | PROT_WRITE);
            map(a + 0x1000 + n, 0x1000, PROT_NONE);
        }
    }

    uint64_t rt_budget(const Def& d, uint64_t n)
    {
        // Polynomial in the query length; the degree grows with the nesting of repetitions, the factor with the
        // pattern and its counts.  Measured over ordinary runs, no call comes within a factor 20 of this.
        double len = static_cast<double>(strlen(d.text)) + 4;
        for (const char* p = d.text; *p; ++p)
            if (*p == '{' || *p == ',')
                if (const int c = atoi(p + 1); c > 1 && len < 1e5) len *= c;
        double    b   = (d.q ? 100.0 : 200.0) * len;
        const int deg = d.q + 1 < 5 ? d.q + 1 : 5;
        for (int i = 0; i < deg; ++i) b *= static_cast<double>(n) + 2;
        if (b < 50000) b = 50000;
        return b > 20000000.0 ? (n > 4096 ? 50000000u : 20000000u) : static_cast<uint64_t>(b);
    }

    void rt_run(const Spec& sp, int checks)
    {
        // No private futex hash (PR_FUTEX_HASH, PR_FUTEX_HASH_SET_SLOTS, 0): recent kernels keep the
        // memory of a process that has one for seconds after its end
        prctl(78, 1, 0, 0, 0);
        setup(sp, checks);
        if (sp.ambient0) surroundings();
        pthread_key_create(&G.at_exit, thread_gone);
        for (int i = 0; i < G.nth; ++i)
        {
            Th&            t = G.th[i];
            const uint64_t g = 0x1000;
            void* p = mmap(reinterpret_cast<void*>(t.stack_lo - g), t.stack_hi - t.stack_lo + g, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if (p == MAP_FAILED) stop(3, "setup", "stack");
            mprotect(p, g, PROT_NONE);
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstack(&at, reinterpret_cast<void*>(t.stack_lo), t.stack_hi - t.stack_lo);
            pthread_attr_setguardsize(&at, 0);
            if (pthread_create(&t.th, &at, thread_main, &t)) stop(3, "setup", "pthread_create");
        }
        if (G.nth)
        {
            int first = sp.first < G.nth ? sp.first : 0;
            if (sp.gen && sp.policy.kind == 2)
                for (int i = 0; i < G.nth; ++i)
                    if (G.th[i].prio > G.th[first].prio) first = i;
            shm->v_op = 0;
            G.cur = &G.th[first];
            G.cur->base = 0;
            arm(*G.cur);
            // recorded so that the replay starts alike
            record_switch(-1, 0, 0, first);
            __atomic_store_n(&G.th[first].go, 1, __ATOMIC_SEQ_CST);
            fut_wake(&G.th[first].go);
            for (;;)
            {
                while (!__atomic_load_n(&G.event, __ATOMIC_SEQ_CST)) fut_wait(&G.event, 0);
                if (__atomic_load_n(&G.finished, __ATOMIC_SEQ_CST)) break;
                __atomic_store_n(&G.event, 0, __ATOMIC_SEQ_CST);
                // a thread has ended: its stack and its thread_local objects go away with it
                Th& t = G.th[G.reap];
                pthread_join(t.th, nullptr);
                mprotect(reinterpret_cast<void*>(t.stack_lo), t.stack_hi - t.stack_lo, PROT_NONE);
                Th& o = G.th[G.next_on];
                __atomic_store_n(&o.go, 1, __ATOMIC_SEQ_CST);
                fut_wake(&o.go);
            }
        }
        shm->steps = static_cast<uint64_t>(G.count);
        if (shm->state == 0) shm->state = 1;
    }

    namespace
    {
        bool chain_mode;

        void lens_here(Th& t, const Def& d, const char* b, const char* e, long* out)
        {
            for (int i = 0; i < d.ntok + d.nsep; ++i)
            {
                t.nest = 1;
                t.base = G.count;
                begin_call(t, d, b, e);
                paint_stack(0);
                arm(t);
                G.on   = true;
                out[i] = i < d.ntok ? d.tok_len(i, t.wb, t.we) : d.sep_len(i - d.ntok, t.wb, t.we);
                G.on   = false;
            }
        }

        void* lens_main(void* p)
        {
            Th&        t = *static_cast<Th*>(p);
            stack_t    ss {};
            ss.ss_sp   = altstacks[t.tid];
            ss.ss_size = sizeof altstacks[t.tid];
            sigaltstack(&ss, nullptr);
            t.frame      = reinterpret_cast<uint64_t>(__builtin_frame_address(0));
            const Def& d = *sim_defs[t.fr[0].slot[0].def];
            G.cur        = &t;
            t.base       = 0;
            const TextState& x = G.tx[t.fr[0].slot[0].text];
            if (!chain_mode)
            {
                lens_here(t, d, x.b, x.e, shm->lens);
                return nullptr;
            }
            // separator, token, separator ... as the documentation says
            const char* at  = x.b;
            bool        sep = true;
            shm->nchain     = 0;
            while (shm->nchain < static_cast<int>(sizeof shm->chain / sizeof *shm->chain))
            {
                long  l[64];
                lens_here(t, d, at, x.e, l);
                Chain& c = shm->chain[shm->nchain++];
                c.pos    = at - x.b;
                long best = 0;
                for (int i = 0; i < d.ntok + d.nsep; ++i)
                {
                    c.l[i] = static_cast<int32_t>(l[i]);
                    if ((i >= d.ntok) == sep && l[i] > best) best = l[i];
                }
                if (best <= 0 && !(sep && at == x.b)) break;
                at += best;
                sep = !sep;
            }
            return nullptr;
        }

        void lens_run(int def, const std::string& text)
        {
            Spec      sp;
            const int slot      = text.size() > TEXT_SMALL - 64 ? BIG_TEXT : 0;
            sp.texts[slot].pre  = text;
            sp.thr.resize(1);
            setup(sp, 0);
            Th& t                = G.th[0];
            t.fr[0].slot[0].def  = def;
            t.fr[0].slot[0].text = slot;
            void* p = mmap(reinterpret_cast<void*>(t.stack_lo), t.stack_hi - t.stack_lo, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if (p == MAP_FAILED) stop(3, "setup", "stack");
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstack(&at, reinterpret_cast<void*>(t.stack_lo), t.stack_hi - t.stack_lo);
            pthread_attr_setguardsize(&at, 0);
            if (pthread_create(&t.th, &at, lens_main, &t)) stop(3, "setup", "pthread_create");
            pthread_join(t.th, nullptr);
            shm->state = 1;
        }
    } // namespace

    void rt_lens(int def, const std::string& suffix)
    {
        chain_mode = false;
        lens_run(def, suffix);
    }
    void rt_chain(int def, const std::string& text)
    {
        chain_mode = true;
        lens_run(def, text);
    }
} // namespace sim

using namespace sim;

// ---- what the instrumented code calls ---------------------------------------------------

#define PC G.pc = reinterpret_cast<uint64_t>(__builtin_return_address(0))
extern "C"
{
    void __sanitizer_cov_trace_pc()
    {
        if (!G.on) return;
        PC;
        tick();
    }
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define RW(N)                                                                   \
    void __tsan_read##N(void* p) { PC; access(p, N, false); }                   \
    void __tsan_write##N(void* p) { PC; access(p, N, true); }                   \
    void __tsan_unaligned_read##N(void* p) { PC; access(p, N, false); }         \
    void __tsan_unaligned_write##N(void* p) { PC; access(p, N, true); }         \
    void __tsan_volatile_read##N(void* p) { PC; access(p, N, false); }          \
    void __tsan_volatile_write##N(void* p) { PC; access(p, N, true); }          \
    void __tsan_unaligned_volatile_read##N(void* p) { PC; access(p, N, false); }\
    void __tsan_unaligned_volatile_write##N(void* p) { PC; access(p, N, true); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, size_t n) { PC; if (n) access(p, n, false); }
    void __tsan_write_range(void* p, size_t n) { PC; if (n) access(p, n, true); }
    void __tsan_vptr_update(void** p, void*) { PC; access(p, 8, true); }
    void __tsan_vptr_read(void** p) { PC; access(p, 8, false); }
}

namespace
{
    // Atomic operations: scheduling points; they synchronise as their order says
    template<typename F>
    auto atomic_op(volatile void* p, size_t n, bool r, bool w, int order, F f)
    {
        if (!G.on) return f();
        tick();
        Th& t = *G.cur;
        const uint64_t a   = reinterpret_cast<uint64_t>(p);
        const bool     own = (a >= t.stack_lo && a < t.stack_hi) || (a >= t.cur_lo && a < t.cur_hi);
        if (!own)
        {
            hot_point(t);
            void* q = const_cast<void*>(p);
            if (G.fences) order = __ATOMIC_ACQ_REL; // rather miss a race than invent one
            if (r && order != __ATOMIC_RELAXED && order != __ATOMIC_RELEASE) acquire(t, q);
            if (r) race(t, a, n, false, true);
            if (w) race(t, a, n, true, true);
            if (w && order != __ATOMIC_RELAXED && order != __ATOMIC_ACQUIRE && order != __ATOMIC_CONSUME) release(t, q);
        }
        return f();
    }

    bool spurious() { return G.on && mix(static_cast<uint64_t>(G.count), 77) % 4 == 0; } // a weak exchange may fail for no reason
} // namespace

extern "C"
{
#define AT(B, T)                                                                                                                                                                  \
    T __tsan_atomic##B##_load(const volatile T* p, int o) { PC; return atomic_op(const_cast<volatile T*>(p), sizeof(T), true, false, o, [&] { return __atomic_load_n(p, __ATOMIC_SEQ_CST); }); }      \
    void __tsan_atomic##B##_store(volatile T* p, T v, int o) { PC; atomic_op(p, sizeof(T), false, true, o, [&] { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return 0; }); }          \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int o) { PC; return atomic_op(p, sizeof(T), true, true, o, [&] { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); }); }    \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int o) { PC; return atomic_op(p, sizeof(T), true, true, o, [&] { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); }); }    \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int o) { PC; return atomic_op(p, sizeof(T), true, true, o, [&] { return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); }); }    \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int o) { PC; return atomic_op(p, sizeof(T), true, true, o, [&] { return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); }); }    \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int o) { PC; return atomic_op(p, sizeof(T), true, true, o, [&] { return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }); }      \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int o) { PC; return atomic_op(p, sizeof(T), true, true, o, [&] { return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); }); }    \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int o) { PC; return atomic_op(p, sizeof(T), true, true, o, [&] { return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); }); }  \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int o, int) { PC; return atomic_op(p, sizeof(T), true, true, o, [&] { return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }); } \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int o, int) { PC; return atomic_op(p, sizeof(T), true, true, o, [&] { return !spurious() && __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }); }   \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int o, int) { PC; return atomic_op(p, sizeof(T), true, true, o, [&] { __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }); }
    AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
    void __tsan_atomic_thread_fence(int)
    {
        if (G.on) G.fences = true, tick();
        __atomic_thread_fence(__ATOMIC_SEQ_CST);
    }
    void __tsan_atomic_signal_fence(int) {}

    // ---- library functions called by the code under test (symbols redirected at link time) ----
#define IN (G.on)
    int sim_seam_used;

    void* sim_memchr(const void* p, int c, size_t n)
    {
        PC;
        void* r = memchr(const_cast<void*>(p), c, n);
        if (IN && n) access(p, r ? static_cast<size_t>(static_cast<char*>(r) - static_cast<const char*>(p)) + 1 : n, false);
        return r;
    }
    int sim_memcmp(const void* p, const void* q, size_t n)
    {
        PC;
        if (IN && n)
        {
            // memcmp may read all n bytes of both
            access(p, n, false);
            access(q, n, false);
        }
        return memcmp(p, q, n);
    }
    int   sim_bcmp(const void* p, const void* q, size_t n) { return sim_memcmp(p, q, n); }
    void* sim_memcpy(void* d, const void* s, size_t n)
    {
        PC;
        if (IN && n)
        {
            access(s, n, false);
            access(d, n, true);
        }
        return memcpy(d, s, n);
    }
    void* sim_memmove(void* d, const void* s, size_t n)
    {
        PC;
        if (IN && n)
        {
            access(s, n, false);
            access(d, n, true);
        }
        return memmove(d, s, n);
    }
    void* sim_memset(void* d, int c, size_t n)
    {
        PC;
        if (IN && n) access(d, n, true);
        return memset(d, c, n);
    }
    size_t sim_strlen(const char* s)
    {
        PC;
        if (!IN) return strlen(s);
        size_t n = 0;
        for (;; ++n) // byte by byte: the first one outside the query is reported before it is read
        {
            access(s + n, 1, false);
            if (!s[n]) return n;
        }
    }
    int sim_strcmp(const char* a, const char* b)
    {
        PC;
        for (;; ++a, ++b)
        {
            access(a, 1, false);
            access(b, 1, false);
            if (*a != *b || !*a) return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b);
        }
    }
    int sim_strncmp(const char* a, const char* b, size_t n)
    {
        PC;
        for (; n; ++a, ++b, --n)
        {
            access(a, 1, false);
            access(b, 1, false);
            if (*a != *b || !*a) return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b);
        }
        return 0;
    }
    char* sim_strchr(const char* a, int c)
    {
        PC;
        for (;; ++a)
        {
            access(a, 1, false);
            if (*a == static_cast<char>(c)) return const_cast<char*>(a);
            if (!*a) return nullptr;
        }
    }

    size_t sim_strnlen(const char* s, size_t m)
    {
        PC;
        size_t n = 0;
        for (; n < m; ++n)
        {
            access(s + n, 1, false);
            if (!s[n]) break;
        }
        return n;
    }
    char* sim_strrchr(const char* a, int c)
    {
        PC;
        for (const char* r = nullptr;; ++a)
        {
            access(a, 1, false);
            if (*a == static_cast<char>(c)) r = a;
            if (!*a) return const_cast<char*>(r);
        }
    }
    void* sim_memrchr(const void* p, int c, size_t n)
    {
        PC;
        const char* a = static_cast<const char*>(p);
        while (n--)
        {
            access(a + n, 1, false);
            if (a[n] == static_cast<char>(c)) return const_cast<char*>(a + n);
        }
        return nullptr;
    }
    void* sim_rawmemchr(const void* p, int c)
    {
        PC;
        for (const char* a = static_cast<const char*>(p);; ++a)
        {
            access(a, 1, false);
            if (*a == static_cast<char>(c)) return const_cast<char*>(a);
        }
    }
    void* sim_memmem(const void* p, size_t n, const void* q, size_t m)
    {
        PC;
        if (n) access(p, n, false);
        if (m) access(q, m, false);
        return memmem(p, n, q, m);
    }
    static bool among(char c, const char* set)
    {
        for (;; ++set)
        {
            access(set, 1, false);
            if (!*set) return false;
            if (*set == c) return true;
        }
    }
    static size_t span(const char* s, const char* set, bool in)
    {
        for (size_t n = 0;; ++n)
        {
            access(s + n, 1, false);
            if (!s[n] || among(s[n], set) != in) return n;
        }
    }
    size_t sim_strspn(const char* s, const char* set)
    {
        PC;
        return span(s, set, true);
    }
    size_t sim_strcspn(const char* s, const char* set)
    {
        PC;
        return span(s, set, false);
    }
    char* sim_strpbrk(const char* s, const char* set)
    {
        PC;
        s += span(s, set, false);
        return *s ? const_cast<char*>(s) : nullptr;
    }
    char* sim_strstr(const char* s, const char* w)
    {
        PC;
        for (;; ++s)
        {
            for (size_t k = 0;; ++k)
            {
                access(w + k, 1, false);
                if (!w[k]) return const_cast<char*>(s);
                access(s + k, 1, false);
                if (s[k] != w[k]) break;
            }
            access(s, 1, false);
            if (!*s) return nullptr;
        }
    }
    char* sim_strncpy(char* d, const char* s, size_t n)
    {
        PC;
        bool end = false;
        for (size_t k = 0; k < n; ++k)
        {
            if (!end) access(s + k, 1, false);
            end = end || !s[k];
            access(d + k, 1, true);
            d[k] = end ? 0 : s[k];
        }
        return d;
    }
    char* sim_strcpy(char* d, const char* s)
    {
        PC;
        for (size_t k = 0;; ++k)
        {
            access(s + k, 1, false);
            access(d + k, 1, true);
            if (!(d[k] = s[k])) return d;
        }
    }
    void* sim_mempcpy(void* d, const void* s, size_t n)
    {
        PC;
        if (IN && n)
        {
            access(s, n, false);
            access(d, n, true);
        }
        return static_cast<char*>(memcpy(d, s, n)) + n;
    }
    int sim_tolower(int c);
    static int case_compare(const char* a, const char* b, size_t n)
    {
        for (; n; ++a, ++b, --n)
        {
            access(a, 1, false);
            access(b, 1, false);
            const int x = sim_tolower(static_cast<unsigned char>(*a)), y = sim_tolower(static_cast<unsigned char>(*b));
            if (x != y || !*a) return x - y;
        }
        return 0;
    }
    int sim_strcasecmp(const char* a, const char* b)
    {
        PC;
        return case_compare(a, b, static_cast<size_t>(-1));
    }
    int sim_strncasecmp(const char* a, const char* b, size_t n)
    {
        PC;
        return case_compare(a, b, n);
    }
    size_t sim_hash_bytes(const void* p, size_t n, size_t seed)
    {
        PC;
        if (IN && n) access(p, n, false);
        const size_t h = std::_Hash_bytes(p, n, seed);
        return G.on && n == 8 ? (h & 3) * 0x9E3779B97F4A7C15ull : h; // identities of threads often fall on the same slot
    }

    // character classification follows the simulated locale: 0 "C", 1 Latin-1, 2 Turkish-like
#define LOC ((G.on ? G.ambient : 0) & 3)
#define HI(c) (LOC && (c) >= 0xC0)
    int sim_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || HI(c); }
    int sim_isdigit(int c) { return c >= '0' && c <= '9'; }
    int sim_isalnum(int c) { return sim_isalpha(c) || sim_isdigit(c); }
    int sim_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13) || (LOC && (c == 0xA0 || c == 0x85)); }
    int sim_isupper(int c) { return (c >= 'A' && c <= 'Z') || (LOC && c >= 0xC0 && c < 0xDF); }
    int sim_islower(int c) { return (c >= 'a' && c <= 'z') || (LOC && c >= 0xDF); }
    int sim_isxdigit(int c) { return sim_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
    int sim_isprint(int c) { return (c >= 32 && c < 127) || (LOC && c >= 0xA0); }
    int sim_isgraph(int c) { return sim_isprint(c) && c != 32; }
    int sim_ispunct(int c) { return sim_isgraph(c) && !sim_isalnum(c); }
    int sim_iscntrl(int c) { return (c >= 0 && c < 32) || c == 127 || (LOC && c >= 0x80 && c < 0xA0); }
    int sim_isblank(int c) { return c == ' ' || c == '\t' || (LOC && c == 0xA0); }
    int sim_tolower(int c)
    {
        if (LOC == 2 && c == 'I') return 0xFD;
        if (c >= 'A' && c <= 'Z') return c + 32;
        return LOC && c >= 0xC0 && c < 0xDE ? c + 32 : c;
    }
    int sim_toupper(int c)
    {
        if (LOC == 2 && c == 'i') return 0xDD;
        if (c >= 'a' && c <= 'z') return c - 32;
        return LOC && c >= 0xE0 && c < 0xFE ? c - 32 : c;
    }

    // clocks, random numbers, environment: simulated, and different under every ambient state
    static uint64_t sim_now()
    {
        if (!G.on) return 1;
        G.clock += 1 + (G.ambient >> 2 & 7) * 1000003ull;
        return G.ambient & 64 ? 0xFFFFFFFFull * 1000000000ull - G.clock : G.clock;
    }
    long sim_time(long* t)
    {
        const long v = static_cast<long>(sim_now() / 1000000000ull);
        if (t) *t = v;
        return v;
    }
    long sim_clock() { return static_cast<long>(sim_now() / 1000); }
    int  sim_clock_gettime(int, struct timespec* ts)
    {
        const uint64_t v = sim_now();
        ts->tv_sec       = static_cast<long>(v / 1000000000ull);
        ts->tv_nsec      = static_cast<long>(v % 1000000000ull);
        return 0;
    }
    long  sim_chrono_now() { return static_cast<long>(sim_now()); }
    long  sim_steady_now() { return static_cast<long>(sim_now()); }
    int   sim_rand()
    {
        G.rnd = mix(G.rnd, static_cast<uint64_t>(G.ambient) + 1);
        return static_cast<int>(G.rnd & 0x7fffffff);
    }
    void  sim_srand(unsigned s) { G.rnd = s; }
    unsigned sim_random_device(void*) { return static_cast<unsigned>(sim_rand()); }
    long     sim_random() { return sim_rand(); }
    int      sim_rand_r(unsigned*) { return sim_rand(); }
    double   sim_drand48() { return sim_rand() / 2147483648.0; }
    long     sim_getrandom(void* p, size_t n, unsigned)
    {
        for (size_t i = 0; i < n; ++i) static_cast<char*>(p)[i] = static_cast<char>(sim_rand() >> 7);
        return static_cast<long>(n);
    }
    uint32_t sim_arc4random() { return static_cast<uint32_t>(sim_rand()) * 2654435761u; }
    int      sim_cpu() { return sim_rand() >> 9 & 7; } // the thread may be on another processor each time it looks
    int      sim_gettimeofday(struct timeval* t, void*)
    {
        const uint64_t v = sim_now();
        t->tv_sec        = static_cast<long>(v / 1000000000ull);
        t->tv_usec       = static_cast<long>(v / 1000 % 1000000);
        return 0;
    }
    char* sim_getenv(const char* n)
    {
        static char one[] = "1", two[] = "C.UTF-8";
        (void) n;
        return !G.on || !(G.ambient & 32) ? nullptr : G.ambient & 4 ? one : two;
    }

    // allocation
    static void* sim_alloc(size_t n)
    {
        Th& t = *G.cur;
        ++shm->allocs;
        if (t.in_heap && G.checks & CK_STUCK) stop(2, "stuck", "an allocation waits for the heap, which is locked by the allocation it interrupted or an abandoned one");
        t.in_heap = true;
        tick();
        t.in_heap = false;
        if (t.alloc_armed)
        {
            ++t.allocs;
            if (t.alloc_fail < 0 || t.alloc_fail == t.allocs)
            {
                ++shm->allocs_failed;
                return nullptr;
            }
        }
        n        = (n + 31) & ~static_cast<size_t>(15);
        char* p  = G.heap;
        if (p + n > reinterpret_cast<char*>(A_HEAP + HEAP_SIZE)) return nullptr;
        *reinterpret_cast<size_t*>(p) = n - 16;
        G.heap += n;
        memset(p + 16, G.paint, n - 16);
        return p + 16;
    }
    static bool ours(const void* p) { return reinterpret_cast<uint64_t>(p) >= A_HEAP && reinterpret_cast<uint64_t>(p) < A_HEAP + HEAP_SIZE; }

    void* sim_malloc(size_t n)
    {
        PC;
        return IN ? sim_alloc(n) : malloc(n);
    }
    void sim_free(void* p)
    {
        PC;
        if (!ours(p)) return free(p);
        size_t& n = *reinterpret_cast<size_t*>(static_cast<char*>(p) - 16);
        if (n >> 63) stop(IN ? 2 : 3, "crash", "memory is freed twice");
        if (IN)
        {
            if (G.cur->in_heap && G.checks & CK_STUCK) stop(2, "stuck", "a deallocation waits for the heap, which is locked by the allocation it interrupted or an abandoned one");
            G.cur->in_heap = true;
            for (size_t i = 0; i < n; i += 8) access(static_cast<char*>(p) + i, 8, true); // nobody may use it any more
            G.cur->in_heap = false;
        }
        memset(p, 0xDD ^ G.paint, n);
        n |= 1ull << 63;
    }
    void* sim_calloc(size_t a, size_t b)
    {
        PC;
        if (!IN) return calloc(a, b);
        void* p = sim_alloc(a * b);
        if (p) memset(p, 0, a * b);
        return p;
    }
    void* sim_realloc(void* p, size_t n)
    {
        PC;
        if (!IN && !ours(p)) return realloc(p, n);
        void* q = IN ? sim_alloc(n) : malloc(n);
        if (q && p)
        {
            size_t old = ours(p) ? *reinterpret_cast<size_t*>(static_cast<char*>(p) - 16) : malloc_usable_size(p);
            memcpy(q, p, old < n ? old : n);
            sim_free(p);
        }
        return q;
    }
    void* sim_aligned_alloc(size_t al, size_t n)
    {
        PC;
        if (!IN) return aligned_alloc(al, n);
        char* p = static_cast<char*>(sim_alloc(n + al));
        if (!p) return nullptr;
        char* q = reinterpret_cast<char*>((reinterpret_cast<uint64_t>(p) + al - 1) / al * al);
        if (q != p) reinterpret_cast<size_t*>(q)[-2] = n;
        return q;
    }

    void* sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
    int   sim_posix_memalign(void** p, size_t al, size_t n)
    {
        PC;
        void* q = sim_aligned_alloc(al, n);
        if (!q) return ENOMEM;
        *p = q;
        return 0;
    }
    char* sim_strndup(const char* s, size_t m)
    {
        PC;
        const size_t n = sim_strnlen(s, m);
        char*        d = static_cast<char*>(sim_malloc(n + 1));
        if (d) memcpy(d, s, n), d[n] = 0;
        return d;
    }
    char* sim_strdup(const char* s) { return sim_strndup(s, static_cast<size_t>(-1)); }

    // locks: one owner (thread + 1) or a number of readers (negative)
    static bool enabled() { return G.on && G.cur; }
    static bool may_recurse(const void* m) { return G.recursive->count(reinterpret_cast<uint64_t>(m)) != 0; }
    static void lock_on(const void* m, bool shared = false)
    {
        Th& t = *G.cur;
        tick();
        hot_point(t);
        for (;;)
        {
            int& o = (*G.owner)[reinterpret_cast<uint64_t>(m)];
            if (shared ? o <= 0 : o == 0)
            {
                o = shared ? o - 1 : t.tid + 1;
                break;
            }
            if (!shared && o == t.tid + 1 && may_recurse(m))
            {
                ++(*G.recursive)[reinterpret_cast<uint64_t>(m)];
                return;
            }
            G.on = false;
            if (t.nest != 0 || o == t.tid + 1)
                stop(G.checks & CK_STUCK ? 2 : 3, "stuck", "a call waits for a lock held by the call it interrupted or by itself");
            t.blocked = m;
            forced(t);
            arm(t);
            G.on = true;
        }
        acquire(t, m);
    }
    static void unlock_on(const void* m)
    {
        Th& t = *G.cur;
        tick();
        auto it = G.recursive->find(reinterpret_cast<uint64_t>(m));
        if (it != G.recursive->end() && it->second > 0)
        {
            --it->second;
            return;
        }
        release(t, m);
        int& o = (*G.owner)[reinterpret_cast<uint64_t>(m)];
        o      = o < 0 ? o + 1 : 0;
        for (int i = 0; i < G.nth; ++i)
            if (G.th[i].blocked == m) G.th[i].blocked = nullptr;
        hot_point(t);
    }
    static int try_on(const void* m, bool shared = false)
    {
        tick();
        hot_point(*G.cur);
        const int o = (*G.owner)[reinterpret_cast<uint64_t>(m)];
        if (shared ? o > 0 : o != 0 && !(o == G.cur->tid + 1 && may_recurse(m))) return EBUSY;
        lock_on(m, shared);
        return 0;
    }
    int sim_mutex_lock(void* m)
    {
        PC;
        if (!enabled()) return 0;
        if ((static_cast<pthread_mutex_t*>(m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) G.recursive->emplace(reinterpret_cast<uint64_t>(m), 0);
        lock_on(m);
        return 0;
    }
    int sim_mutex_trylock(void* m)
    {
        PC;
        if (!enabled()) return 0;
        if ((static_cast<pthread_mutex_t*>(m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) G.recursive->emplace(reinterpret_cast<uint64_t>(m), 0);
        return try_on(m);
    }
    int sim_mutex_timedlock(void* m, const void*) { return sim_mutex_trylock(m) ? ETIMEDOUT : 0; } // time may always have passed
    int sim_mutex_clocklock(void* m, int, const void*) { return sim_mutex_timedlock(m, nullptr); }
    int sim_mutex_unlock(void* m)
    {
        PC;
        if (enabled()) unlock_on(m);
        return 0;
    }
    int sim_rdlock(void* m)
    {
        PC;
        if (enabled()) lock_on(m, true);
        return 0;
    }
    int sim_wrlock(void* m)
    {
        PC;
        if (enabled()) lock_on(m);
        return 0;
    }
    int sim_tryrdlock(void* m)
    {
        PC;
        return enabled() ? try_on(m, true) : 0;
    }
    int sim_trywrlock(void* m)
    {
        PC;
        return enabled() ? try_on(m) : 0;
    }
    int sim_rwunlock(void* m)
    {
        PC;
        if (enabled()) unlock_on(m);
        return 0;
    }
    int sim_spin_lock(void* m) { return sim_wrlock(m); }
    int sim_spin_trylock(void* m) { return sim_trywrlock(m); }
    int sim_spin_unlock(void* m) { return sim_rwunlock(m); }
    // Waiting is allowed to end early: it ends at once, and the caller's loop looks again
    int sim_yield();
    int sim_cond_wait(void*, void* m)
    {
        PC;
        if (!enabled()) return 0;
        unlock_on(m);
        sim_yield();
        lock_on(m);
        return 0;
    }
    int  sim_cond_timedwait(void* c, void* m, const void*) { return sim_cond_wait(c, m), ETIMEDOUT; }
    int  sim_cond_clockwait(void* c, void* m, int, const void*) { return sim_cond_wait(c, m), ETIMEDOUT; }
    int  sim_cond_signal(void*) { return 0; }
    int  sim_cond_broadcast(void*) { return 0; }
    void sim_cv_wait(void* c, void** lock) { sim_cond_wait(c, *lock); }
    void sim_cv_notify(void*) {}
    void sim_cv_notify_all(void*) {}
    int  sim_sem_wait(unsigned* s)
    {
        PC;
        while (!*s) sim_yield();
        if (enabled()) tick(), hot_point(*G.cur), acquire(*G.cur, s);
        --*s;
        return 0;
    }
    int sim_sem_trywait(unsigned* s)
    {
        PC;
        if (enabled()) tick(), hot_point(*G.cur), acquire(*G.cur, s);
        if (!*s) return errno = EAGAIN, -1;
        --*s;
        return 0;
    }
    int sim_sem_post(unsigned* s)
    {
        PC;
        ++*s;
        if (enabled()) tick(), release(*G.cur, s), hot_point(*G.cur);
        return 0;
    }
    long sim_syscall(long nr, long a, long b, long c, long d, long e, long f)
    {
        PC;
        if (!enabled()) return syscall(nr, a, b, c, d, e, f);
        if (nr == SYS_futex)
        {
            sim_yield();
            return 0;
        }
        if (nr == SYS_gettid) return 1000 + G.cur->tid;
        if (nr == SYS_sched_yield) return sim_yield();
        if (nr == SYS_getrandom) return errno = EAGAIN, -1;
        return syscall(nr, a, b, c, d, e, f);
    }
    int sim_once(int* o, void (*f)())
    {
        PC;
        if (!enabled())
        {
            if (*o != 2) f();
            *o = 2;
            return 0;
        }
        tick();
        hot_point(*G.cur);
        if (*o == 2)
        {
            acquire(*G.cur, o);
            return 0;
        }
        lock_on(o);
        if (*o != 2)
        {
            f();
            *o = 2;
        }
        unlock_on(o);
        return 0;
    }
    int sim_guard_acquire(uint64_t* g)
    {
        PC;
        if (*reinterpret_cast<char*>(g)) return 0;
        if (!enabled()) return 1;
        lock_on(g);
        if (*reinterpret_cast<char*>(g))
        {
            unlock_on(g);
            return 0;
        }
        return 1;
    }
    void sim_guard_release(uint64_t* g)
    {
        PC;
        *reinterpret_cast<char*>(g) = 1;
        if (enabled()) unlock_on(g);
    }
    void sim_guard_abort(uint64_t* g)
    {
        PC;
        if (enabled()) unlock_on(g);
    }
    int sim_yield()
    {
        PC;
        if (!enabled()) return 0;
        tick();
        Th& t = *G.cur;
        if (t.nest == 0 && t.in_call)
        {
            int c[MAXT];
            if (candidates(c, t.tid))
            {
                G.on = false;
                forced(t);
                arm(t);
                G.on = true;
            }
        }
        return 0;
    }
    int sim_nanosleep(const void*, void*) { return sim_yield(); }
    int sim_clock_nanosleep(int, int, const void*, void*) { return sim_yield(); }
    int sim_usleep(unsigned) { return sim_yield(); }
}

// every operator new of the process: the code under test gets memory from the simulated heap
void* operator new(size_t n)
{
    void* p = G.on ? sim_alloc(n) : malloc(n ? n : 1);
    if (!p) throw std::bad_alloc {};
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return G.on ? sim_alloc(n) : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return G.on ? sim_alloc(n) : malloc(n ? n : 1); }
void  operator delete(void* p) noexcept { sim_free(p); }
void  operator delete[](void* p) noexcept { sim_free(p); }
void  operator delete(void* p, size_t) noexcept { sim_free(p); }
void  operator delete[](void* p, size_t) noexcept { sim_free(p); }
void* operator new(size_t n, std::align_val_t a)
{
    if (void* p = sim_aligned_alloc(static_cast<size_t>(a), n)) return p;
    throw std::bad_alloc();
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_aligned_alloc(static_cast<size_t>(a), n); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim_aligned_alloc(static_cast<size_t>(a), n); }
void  operator delete(void* p, std::align_val_t) noexcept { sim_free(p); }
void  operator delete[](void* p, std::align_val_t) noexcept { sim_free(p); }
void  operator delete(void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
void  operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
