// A run, written down completely: texts, caller scripts, faults and schedule.
#ifndef SIM_SPEC_HPP
#define SIM_SPEC_HPP
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>

#include "api.hpp"

extern const sim::Def* const sim_defs[];
extern const unsigned        sim_ndefs;
extern const sim::Ct* const  sim_ct[]; // nullptr: not evaluated by the compiler

namespace sim
{
    constexpr int MAXT = 8, MAXOP = 192, NSLOT = 24, NTEXT = 12, MAXDEPTH = 8;
    constexpr int NSHARE = 6; // slots NSLOT and up belong to all threads together

    enum OpKind : int
    {
        NEW,     // a=slot b=def c=text d=how
        ADV,     // a=slot d=how
        COPY,    // a=dst b=src
        MOVE,    // a=dst b=src (src becomes unusable)
        ASSIGN,  // a=dst b=src
        MASSIGN, // a=dst b=src (src becomes unusable)
        BEGIN,   // a=dst b=src
        DROP,    // a=slot
        RANGE,   // b=def c=text d=how
        OBS,     // a=slot
        RESUME,  // a=dst b=src: fresh search on the rest of the text after src's last match
        FILL,    // c=text s=new content
        EDIT,    // c=text a=pos b=byte; d>0: a is counted from the end of slot d-1's match
        AMBIENT, // a=ambient state bits (8..15: the byte left behind in dead memory)
        ADVN,    // a=slot b=at most this many steps, until one fails
        BURST,   // a=slot b=def c=text d=this many searches, one after the other; the last one stays
        BARRIER, // every thread that still runs gets here, or ends, before any of them goes on
        SCAN,    // b=def c=text a=cap: an uninterrupted scan, for reference
        NOPKINDS
    };
    extern const char* const op_name[NOPKINDS];

    struct Op
    {
        int         k, a = 0, b = 0, c = 0, d = 0;
        std::string s;
    };

    enum FaultKind : int
    {
        F_INTERRUPT, // arg: nested script id, run inside the interrupted call
        F_ABANDON,   // the call is jumped out of; arg: begun again and jumped out of as many times more
        F_KILL,      // the thread never runs again
        F_NEIGH,     // the bytes around the query are rewritten; arg: pattern
        F_ALLOC,     // arg -1: every allocation of the op fails, n: the n-th
        F_NKINDS
    };
    extern const char* const fault_name[F_NKINDS];

    struct Fault
    {
        int     kind, tid, op;
        int64_t step; // within the op; -k: at the k-th access to shared memory
        int64_t arg;
        int     lvl = 0; // within an interrupting script: its depth; op and step count there
    };

    struct Switch
    {
        int     tid, op; // at this point of this thread ... (op -1: at the end of its script / when it blocks)
        int64_t step;
        int     to; // ... this thread runs next
    };

    struct Text
    {
        int         place = 2; // 0 flush with an unmapped page after, 1 flush with one before, 2 in the middle, 3 across a multiple of 4 GiB
        int         nullq = 0; // an empty query is passed as a null view
        std::string pre, unit, suf;
        int64_t     count = 0; // content = pre + unit*count + suf
        std::string left, right; // neighbours (repeated to fill)
        std::string content() const
        {
            std::string r = pre;
            r.reserve(pre.size() + unit.size() * count + suf.size());
            for (int64_t i = 0; i < count; ++i) r += unit;
            return r + suf;
        }
    };

    struct Policy
    {
        int      kind = 0; // 0 run to completion, 1 geometric, 2 priorities with change points, 3 after shared accesses only
        double   mean = 100;
        int      points = 0;
        uint64_t horizon = 1;
        double   hot = 0;
        uint64_t seed = 0;
    };

    struct Spec
    {
        std::string                  profile;
        uint64_t                     seed = 0, run = 0, patseed = 0;
        int                          phase = 0; // 0 inside main, 1 before static initialisation, 2 at exit
        int64_t                      stack = 1 << 20;
        int                          ambient0 = 0;
        std::map<int, Text>          texts;
        std::vector<std::vector<Op>> thr;
        std::vector<std::vector<Op>> nested;
        std::vector<Fault>           faults;
        bool                         gen = false; // draw the schedule from policy, otherwise follow switches
        Policy                       policy;
        std::vector<Switch>          switches;
        int                          first = 0;
        int64_t                      grow = 0; // the text in BIG_TEXT is to be made about this long
    };

    // Fixed addresses: the same run sees the same addresses in every process
    constexpr uint64_t A_STACK = 0x100000000000ull, STACK_STRIDE = 0x1000000ull, STACK_MAX = 0x200000ull;
    constexpr uint64_t A_CUR = 0x100100000000ull, CUR_STRIDE = 0x400000ull; // per thread: slots and range output
    constexpr uint64_t A_SHARE = A_CUR + MAXT * CUR_STRIDE; // the shared slots
    constexpr uint64_t A_TEXT = 0x100500000000ull - 0x3000, TEXT_STRIDE = 0x100000000ull, TEXT_SMALL = 0x4000ull, TEXT_BIG = 0x1000000ull;
    constexpr uint64_t A_HEAP = 0x100300000000ull, HEAP_SIZE = 0x4000000ull;
    constexpr int      BIG_TEXT = NTEXT - 1;
    constexpr int      SLOT_BYTES = 1024, RANGE_CAP = 1100;

    // One observation in the recorded history
    struct Rec
    {
        int8_t  tid, nest, what; // what: 0 observation, 1 element of a range loop, 2 end of a range loop, 3 abandoned, 4 threw, 5 killed, 6 skipped, 7 done
        int16_t op, ex; // ex: which execution, for nested scripts
        int8_t  adv, accepted, agree, ne, out; // out: a view outside the query
        uint8_t ng;
        int32_t type;
        int64_t mb, me; // offsets from the text's first byte
        int32_t gb[MAXG], ge[MAXG];
    };

    struct Chain // token and separator lengths at one position of a text
    {
        int64_t pos;
        int32_t l[48];
    };

    struct Shm
    {
        volatile int state; // 0 running 1 done 2 violation 3 undecided
        char         kind[32];
        char         detail[400];
        int          v_tid, v_op, v_nest;
        int64_t      v_step;
        uint64_t     v_addr, v_pc;
        volatile int c_tid;
        uint64_t     steps, nswitch, hot, races_checked, text_reads, allocs, allocs_failed, neigh_writes, outside_reads;
        uint64_t     fired[F_NKINDS];
        uint64_t     maxop;
        int64_t      opsteps[MAXT][MAXOP];
        uint64_t     sched_hash;
        int          ntrace_s, ntrace_f, nsites, nrec;
        // not cleared between runs
        Switch       tr_s[4096];
        Fault        tr_f[64];
        uint64_t     sites[512];
        Rec          recs[12000];
        long         lens[64]; // for token length references
        int          nchain;
        Chain        chain[80000];
    };

    // rt.cpp
    extern Shm* shm;
    void        rt_map_arena();                 // once, in the parent
    void        rt_run(const Spec&, int checks); // runs the spec in this process; results in *shm
    void        rt_chain(int def, const std::string& text); // the same at every point a token stream passes
    void        rt_lens(int def, const std::string& suffix); // token/separator lengths at the start of a text
    uint64_t    rt_budget(const Def&, uint64_t n); // steps one call may take
    enum Check : int
    {
        CK_BOUNDS = 1,  // report reads outside the query, writes to it
        CK_RACE   = 2,  // report unsynchronised conflicting accesses
        CK_STEPS  = 4,  // exceeding the step budget is a violation (otherwise undecided)
        CK_STUCK  = 8,  // nobody can run is a violation (otherwise undecided)
    };

    struct Rng
    {
        uint64_t s;
        constexpr Rng() : s(0) {}
        explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
        uint64_t next()
        {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        int      range(int a, int b) { return a + static_cast<int>(below(static_cast<uint64_t>(b - a + 1))); }
        bool     chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
        int64_t  geom(double mean)
        {
            double  u = ((next() >> 11) + 1) * (1.0 / 9007199254740993.0);
            double  r = -__builtin_log(u) * mean;
            int64_t k = 1 + static_cast<int64_t>(r);
            return k;
        }
    };

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        return h ^ (h >> 32);
    }
} // namespace sim
#endif
