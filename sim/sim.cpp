// The simulator's driver: generates scenarios from seeds, runs each in a forked child of a
// process that has never executed the library, judges the recorded history, minimises and
// replays violations.
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include "spec.hpp"

using namespace sim;

namespace
{
    // ---- the run as text ---------------------------------------------------------------

    std::string hex(const std::string& s)
    {
        static const char d[] = "0123456789abcdef";
        std::string       r   = "x";
        for (unsigned char c: s) r += d[c >> 4], r += d[c & 15];
        return r;
    }
    std::string unhex(const std::string& s)
    {
        std::string r;
        auto        v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        for (size_t i = 1; i + 1 < s.size(); i += 2) r += static_cast<char>(v(s[i]) * 16 + v(s[i + 1]));
        return r;
    }
    std::string printable(const std::string& s, size_t cap = 80)
    {
        std::string r;
        for (unsigned char c: s)
        {
            if (r.size() > cap) return r + "...";
            if (c >= 32 && c < 127 && c != '\\' && c != '"') r += static_cast<char>(c);
            else
            {
                char b[8];
                snprintf(b, sizeof b, "\\x%02x", c);
                r += b;
            }
        }
        return r;
    }
    std::string json_escape(const std::string& s)
    {
        std::string r;
        for (unsigned char c: s)
        {
            if (c == '"' || c == '\\') r += '\\', r += static_cast<char>(c);
            else if (c < 32 || c >= 127)
            {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            }
            else r += static_cast<char>(c);
        }
        return r;
    }

    bool uses_def(int k) { return k == NEW || k == RANGE || k == SCAN || k == BURST; }
    bool uses_text(int k) { return uses_def(k) || k == FILL || k == EDIT; }

    std::string write_spec(const Spec& s)
    {
        std::ostringstream o;
        o << "e-regex-sim 1\nprofile " << s.profile << "\nseed " << s.seed << " run " << s.run << " patseed " << s.patseed << " phase " << s.phase << " stack " << s.stack << " ambient "
          << s.ambient0 << " first " << s.first << "\n";
        std::set<int> used;
        auto          collect = [&](const std::vector<std::vector<Op>>& v) {
            for (auto& t: v)
                for (auto& q: t)
                    if (uses_def(q.k)) used.insert(q.b);
        };
        collect(s.thr);
        collect(s.nested);
        for (int d: used) o << "def " << d << " " << sim_defs[d]->kind << " " << hex(sim_defs[d]->text) << "  # " << printable(sim_defs[d]->text, 400) << "\n";
        for (auto& [i, t]: s.texts)
            o << "text " << i << " " << t.place << " " << t.nullq << " " << t.count << " " << hex(t.pre) << " " << hex(t.unit) << " " << hex(t.suf) << " " << hex(t.left) << " " << hex(t.right)
              << "  # \"" << printable(t.pre) << "\"+\"" << printable(t.unit) << "\"*" << t.count << "+\"" << printable(t.suf) << "\"\n";
        auto scripts = [&](const char* w, const std::vector<std::vector<Op>>& v) {
            for (size_t i = 0; i < v.size(); ++i)
            {
                o << w << " " << i << "\n";
                for (auto& q: v[i]) o << "op " << q.k << " " << q.a << " " << q.b << " " << q.c << " " << q.d << " " << hex(q.s) << "  # " << op_name[q.k] << "\n";
            }
        };
        scripts("thread", s.thr);
        scripts("nested", s.nested);
        for (auto& f: s.faults) o << "fault " << f.kind << " " << f.tid << " " << f.op << " " << f.step << " " << f.arg << " " << f.lvl << "  # " << fault_name[f.kind] << "\n";
        for (auto& w: s.switches) o << "switch " << w.tid << " " << w.op << " " << w.step << " " << w.to << "\n";
        return o.str();
    }

    bool read_spec(std::istream& in, Spec& s, std::string& prop, std::string& expect)
    {
        std::string                   line;
        std::map<int, int>            defmap;
        std::vector<std::vector<Op>>* cur = nullptr;
        bool                          ok = false;
        while (std::getline(in, line))
        {
            const size_t c = line.find("  # ");
            if (c != std::string::npos) line.resize(c);
            std::istringstream l(line);
            std::string        w;
            l >> w;
            if (w == "e-regex-sim") ok = true;
            else if (w == "property") l >> prop;
            else if (w == "expect") l >> expect;
            else if (w == "profile") l >> s.profile;
            else if (w == "seed") { std::string k; l >> s.seed >> k >> s.run >> k >> s.patseed >> k >> s.phase >> k >> s.stack >> k >> s.ambient0 >> k >> s.first; }
            else if (w == "def")
            {
                int i, k; std::string h;
                l >> i >> k >> h;
                const std::string t = unhex(h);
                int found = -1;
                for (unsigned d = 0; d < sim_ndefs; ++d)
                    if (sim_defs[d]->kind == k && t == sim_defs[d]->text) found = static_cast<int>(d);
                if (found < 0) { fprintf(stderr, "replay: definition not built: %s\n", t.c_str()); return false; }
                defmap[i] = found;
            }
            else if (w == "text")
            {
                int i; std::string a, b, d, e, f;
                Text t;
                l >> i >> t.place >> t.nullq >> t.count >> a >> b >> d >> e >> f;
                t.pre = unhex(a); t.unit = unhex(b); t.suf = unhex(d); t.left = unhex(e); t.right = unhex(f);
                s.texts[i] = t;
            }
            else if (w == "thread") { s.thr.emplace_back(); cur = &s.thr; }
            else if (w == "nested") { s.nested.emplace_back(); cur = &s.nested; }
            else if (w == "op")
            {
                Op q {0}; std::string h;
                l >> q.k >> q.a >> q.b >> q.c >> q.d >> h;
                q.s = unhex(h);
                if (uses_def(q.k)) q.b = defmap[q.b];
                if (cur) cur->back().push_back(q);
            }
            else if (w == "fault") { Fault f; l >> f.kind >> f.tid >> f.op >> f.step >> f.arg >> f.lvl; s.faults.push_back(f); }
            else if (w == "switch") { Switch q; l >> q.tid >> q.op >> q.step >> q.to; s.switches.push_back(q); }
        }
        s.gen = false;
        return ok;
    }

    // ---- executing ---------------------------------------------------------------------

    struct Run
    {
        int                 state = 0;
        std::string         kind, detail;
        int                 vt = 0, vo = 0, vn = 0;
        int64_t             vs = 0;
        uint64_t            vpc = 0;
        std::vector<Rec>    recs;
        std::vector<Switch> sw;
        std::vector<Fault>  ft;
        int64_t             opsteps[MAXT][MAXOP];
        uint64_t            steps = 0, hash = 0, sched = 0, hot = 0, maxop = 0;
    };

    struct Stats
    {
        uint64_t runs = 0, judged = 0, aux = 0, steps = 0, auxsteps = 0, switches = 0, undecided = 0, scenarios = 0, nontrivial = 0, matches = 0, hot = 0, races = 0, text_reads = 0, allocs = 0, allocs_failed = 0;
        uint64_t fired[F_NKINDS] = {}, ops[NOPKINDS] = {}, phase[3] = {}, hard[5] = {};
        uint64_t resumes = 0, big = 0, maxbytes = 0, maxop = 0, lens = 0, bases = 0, maxratio = 0;
        std::map<std::string, uint64_t> why;
        std::set<uint64_t> schedules, sites, distinct;
        std::set<int>      defs;
        std::vector<std::string> samples;
    } ST;

    int      shm_fd = -1;
    char     self_path[512];
    int      g_checks(const std::string& p)
    {
        if (p == "C01" || p == "C11") return CK_RACE | CK_STUCK;
        if (p == "C02") return CK_STUCK | CK_STEPS;
        if (p == "C03") return CK_BOUNDS | CK_STEPS;
        if (p == "C04") return CK_STEPS;
        if (p == "C05") return CK_STEPS | CK_STUCK;
        return 0;
    }

    void reset_shm()
    {
        memset(static_cast<void*>(shm), 0, offsetof(Shm, tr_s));
    }

    uint64_t hash_rec(uint64_t h, const Rec& r)
    {
        h = mix(h, static_cast<uint64_t>(static_cast<uint8_t>(r.tid)) | static_cast<uint64_t>(static_cast<uint8_t>(r.nest)) << 8 | static_cast<uint64_t>(static_cast<uint8_t>(r.what)) << 16
                       | static_cast<uint64_t>(static_cast<uint16_t>(r.op)) << 24 | static_cast<uint64_t>(static_cast<uint8_t>(r.adv)) << 40 | static_cast<uint64_t>(r.accepted) << 48
                       | static_cast<uint64_t>(r.agree) << 52 | static_cast<uint64_t>(r.ne) << 56);
        h = mix(h, static_cast<uint64_t>(r.mb) * 31 + static_cast<uint64_t>(r.me));
        h = mix(h, static_cast<uint64_t>(r.type + 1) * 32 + r.ng * 2 + static_cast<uint64_t>(r.out));
        for (unsigned i = 0; i < r.ng; ++i) h = mix(h, static_cast<uint64_t>(static_cast<uint32_t>(r.gb[i])) << 32 | static_cast<uint32_t>(r.ge[i]));
        return h;
    }

    void collect(Run& r)
    {
        r.state  = shm->state;
        r.kind   = shm->kind;
        r.detail = shm->detail;
        r.vt = shm->v_tid; r.vo = shm->v_op; r.vn = shm->v_nest; r.vs = shm->v_step; r.vpc = shm->v_pc;
        r.recs.assign(shm->recs, shm->recs + shm->nrec);
        r.sw.assign(shm->tr_s, shm->tr_s + shm->ntrace_s);
        r.ft.assign(shm->tr_f, shm->tr_f + shm->ntrace_f);
        memcpy(r.opsteps, shm->opsteps, sizeof r.opsteps);
        r.steps = shm->steps; r.sched = shm->sched_hash; r.hot = shm->hot; r.maxop = shm->maxop;
        uint64_t h = mix(1, static_cast<uint64_t>(r.state));
        for (char c: r.kind) h = mix(h, static_cast<uint64_t>(c));
        for (auto& x: r.recs) h = hash_rec(h, x);
        for (auto& x: r.sw) h = mix(mix(h, static_cast<uint64_t>(x.tid * 1000 + x.op)), static_cast<uint64_t>(x.step) * 8 + static_cast<uint64_t>(x.to));
        for (auto& x: r.ft) h = mix(mix(h, static_cast<uint64_t>(x.kind * 100000 + x.tid * 1000 + x.op + x.lvl * 10000000)), static_cast<uint64_t>(x.step));
        for (auto& t: r.opsteps)
            for (int64_t v: t) h = mix(h, static_cast<uint64_t>(v));
        r.hash = mix(h, r.steps);
    }

    void dead_child(int st)
    {
        if (shm->state != 0) return;
        snprintf(shm->kind, sizeof shm->kind, WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? "killed" : "crash");
        snprintf(shm->detail, sizeof shm->detail, "child ended with wait status 0x%x", st);
        shm->state = WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGALRM ? 2 : 3;
    }

    // Kernels free the remains of processes (thread stacks, page tables) a grace period later; at
    // thousands of processes a second that can be gigabytes. Wait for it now and then.
    void settle()
    {
        static int n;
        if (++n % 400) return;
        syscall(SYS_membarrier, 1 /* MEMBARRIER_CMD_GLOBAL */, 0, 0);
    }

    Run execute(const Spec& s, int checks, bool main_run)
    {
        settle();
        reset_shm();
        int st = 0;
        if (s.phase == 0)
        {
            const pid_t p = fork();
            if (p == 0)
            {
                rt_run(s, checks);
                _exit(0);
            }
            if (p < 0) { perror("fork"); _exit(2); }
            while (waitpid(p, &st, 0) < 0) {}
        }
        else
        {
            // A process of its own: before its static initialisers or after its destructors
            const std::string t  = write_spec(s);
            const int         fd = memfd_create("spec", 0);
            if (fd < 0 || write(fd, t.data(), t.size()) != static_cast<ssize_t>(t.size())) { perror("memfd"); _exit(2); }
            char a[16], b[16], c[16], d[16];
            snprintf(a, sizeof a, "%d", s.phase);
            snprintf(b, sizeof b, "%d", fd);
            snprintf(c, sizeof c, "%d", shm_fd);
            snprintf(d, sizeof d, "%d", checks);
            const pid_t p = fork();
            if (p == 0)
            {
                execl(self_path, self_path, "--phase", a, b, c, d, static_cast<char*>(nullptr));
                _exit(9);
            }
            if (p < 0) { perror("fork"); _exit(2); }
            while (waitpid(p, &st, 0) < 0) {}
            close(fd);
        }
        dead_child(st);
        Run r;
        collect(r);
        if (main_run)
        {
            ++ST.runs;
            ST.steps += r.steps;
            ST.switches += r.sw.size();
            for (int i = 0; i < F_NKINDS; ++i) ST.fired[i] += shm->fired[i];
            ST.hot += shm->hot;
            ST.races += shm->races_checked;
            ST.text_reads += shm->text_reads;
            ST.allocs += shm->allocs;
            ST.allocs_failed += shm->allocs_failed;
            ++ST.phase[s.phase];
            for (int i = 0; i < shm->nsites; ++i) ST.sites.insert(shm->sites[i]);
            ST.maxop = std::max(ST.maxop, r.maxop);
        }
        else
        {
            ++ST.aux;
            ST.auxsteps += r.steps;
        }
        return r;
    }

    // ---- references --------------------------------------------------------------------

    struct M1
    {
        int64_t              mb = -1, me = -1;
        int                  type = -1;
        std::vector<std::pair<int32_t, int32_t>> g;
    };
    struct Base // all matches of an uninterrupted scan in a fresh process
    {
        bool            ok = false, whole = false, agree = true;
        std::vector<M1> list;
        std::string     why;
    };
    std::map<std::pair<int, std::string>, std::shared_ptr<Base>> base_cache;

    M1 to_m1(const Rec& r)
    {
        M1 m;
        m.mb = r.mb; m.me = r.me; m.type = r.type;
        for (unsigned i = 0; i < r.ng; ++i) m.g.emplace_back(r.gb[i], r.ge[i]);
        return m;
    }

    // C10: the reference is what the compiler evaluated
    bool                                                         from_constants = false;
    std::map<int, std::map<std::string, std::shared_ptr<Base>>> constants;

    std::shared_ptr<Base> constant_base(int def, const std::string& text)
    {
        static const auto none = [] { auto b = std::make_shared<Base>(); b->why = "not-evaluated"; return b; }();
        if (!sim_ct[def]) return none;
        auto& m = constants[def];
        if (m.empty())
            for (const Ct* c = sim_ct[def]; c->text; ++c)
            {
                auto           b      = std::make_shared<Base>();
                const unsigned groups = std::min(sim_defs[def]->groups, MAXG), per = 3 + 2 * groups;
                b->ok    = true;
                b->whole = c->v[1];
                b->agree = c->v[2];
                for (int i = 0; i < c->v[0]; ++i)
                {
                    const int* w = c->v + 3 + static_cast<unsigned>(i) * per;
                    M1         x;
                    x.mb = w[0]; x.me = w[1]; x.type = w[2];
                    for (unsigned g = 0; g < groups; ++g)
                    {
                        if (w[3 + 2 * g] == w[4 + 2 * g]) x.g.emplace_back(-1, -1); // an empty capture is not told from none
                        else x.g.emplace_back(w[3 + 2 * g], w[4 + 2 * g]);
                    }
                    b->list.push_back(x);
                }
                m[std::string(c->text, c->len)] = b;
            }
        auto it = m.find(text);
        if (it == m.end()) return none;
        ++ST.bases;
        return it->second;
    }

    std::shared_ptr<Base> get_base(int def, const std::string& text)
    {
        if (from_constants) return constant_base(def, text);
        auto key = std::make_pair(def, text);
        auto it  = base_cache.find(key);
        if (it != base_cache.end()) return it->second;
        static size_t bytes;
        bytes += text.size();
        if (base_cache.size() > 20000 || bytes > 64000000) base_cache.clear(), bytes = 0;
        ++ST.bases;
        Spec s;
        const int slot = text.size() > TEXT_SMALL - 64 ? BIG_TEXT : 0;
        s.texts[slot].pre = text;
        const int cap = std::min(static_cast<int>(text.size()) + 3, 1500);
        s.thr.push_back({Op {SCAN, cap, def, slot, 0, ""}});
        Run  r = execute(s, 0, false);
        auto b = std::make_shared<Base>();
        b->ok  = r.state == 1;
        b->why = r.kind;
        for (auto& x: r.recs)
        {
            if (x.what == 4) b->ok = false, b->why = "threw";
            if (x.what == 0 && x.accepted) b->list.push_back(to_m1(x));
            if (x.what == 0 && !x.accepted) b->whole = true;
        }
        base_cache[key] = b;
        return b;
    }

    struct Lens
    {
        bool              ok = false;
        std::vector<long> tok, sep;
    };
    std::map<std::pair<int, std::string>, Lens> lens_cache;
    size_t lens_bytes = 0;

    const Lens& get_lens(int def, const std::string& rest)
    {
        auto key = std::make_pair(def, rest);
        auto it  = lens_cache.find(key);
        if (it != lens_cache.end()) return it->second;
        if (lens_cache.size() > 50000 || lens_bytes > 64000000) lens_cache.clear(), lens_bytes = 0;
        lens_bytes += rest.size();
        ++ST.lens;
        reset_shm();
        const pid_t p = fork();
        if (p == 0)
        {
            rt_lens(def, rest);
            _exit(0);
        }
        int st;
        while (waitpid(p, &st, 0) < 0) {}
        dead_child(st);
        Lens        l;
        const Def&  d = *sim_defs[def];
        l.ok          = shm->state == 1;
        for (int i = 0; i < d.ntok; ++i) l.tok.push_back(shm->lens[i]);
        for (int i = 0; i < d.nsep; ++i) l.sep.push_back(shm->lens[d.ntok + i]);
        return lens_cache[key] = l;
    }

    // Long texts: the lengths at every point the token stream passes, from one process
    using ChainMap = std::map<int64_t, Lens>;
    std::map<std::pair<int, std::string>, std::shared_ptr<ChainMap>> chain_cache;
    size_t chain_points = 0;

    const Lens& get_chain(int def, const std::string& text, int64_t pos)
    {
        static const Lens none;
        auto key = std::make_pair(def, text);
        auto it  = chain_cache.find(key);
        if (it == chain_cache.end())
        {
            if (chain_cache.size() > 100 || chain_points > 500000) chain_cache.clear(), chain_points = 0;
            it = chain_cache.emplace(key, std::make_shared<ChainMap>()).first;
        }
        ChainMap& m = *it->second;
        if (auto k = m.find(pos); k != m.end()) return k->second;
        ++ST.lens;
        reset_shm();
        shm->nchain   = 0;
        const pid_t p = fork();
        if (p == 0)
        {
            rt_chain(def, text.substr(static_cast<size_t>(pos)));
            _exit(0);
        }
        int st;
        while (waitpid(p, &st, 0) < 0) {}
        dead_child(st);
        if (shm->state != 1) return none;
        const Def& d = *sim_defs[def];
        for (int k = 0; k < shm->nchain; ++k)
        {
            Lens& l = m[shm->chain[k].pos + pos];
            l.ok    = true;
            l.tok.assign(shm->chain[k].l, shm->chain[k].l + d.ntok);
            l.sep.assign(shm->chain[k].l + d.ntok, shm->chain[k].l + d.ntok + d.nsep);
        }
        chain_points += static_cast<size_t>(shm->nchain);
        return m[pos];
    }

    // The reference tokenizer: one step. Returns 1 token, 0 stop, -1 unknown
    int ref_token(int def, const std::string& text, int64_t from, bool first, M1& out)
    {
        const Def& d   = *sim_defs[def];
        int64_t    pos = from;
        const int64_t n = static_cast<int64_t>(text.size());
        if (pos > n) return 0;
        auto lens = [&]() -> const Lens& { return n > 200 ? get_chain(def, text, pos) : get_lens(def, text.substr(static_cast<size_t>(pos))); };
        {
            const Lens& l = lens();
            if (!l.ok) return -1;
            long best = 0;
            for (long x: l.sep) best = std::max(best, x);
            if (best <= 0 && !first) return 0;
            pos += best;
        }
        const Lens& l    = lens();
        if (!l.ok) return -1;
        long        best = 0;
        int         type = -1;
        for (int i = 0; i < d.ntok; ++i)
            if (l.tok[static_cast<size_t>(i)] > best) best = l.tok[static_cast<size_t>(i)], type = d.tok_type[i];
        if (best <= 0) return 0;
        out      = M1 {};
        out.mb   = pos;
        out.me   = pos + best;
        out.type = type;
        return 1;
    }

    // ---- judging -----------------------------------------------------------------------

    struct Verdict
    {
        int         v = 0; // 0 held, 1 violated, 2 undecided
        std::string kind, detail;
    };
    Verdict violated(std::string k, std::string d) { return {1, std::move(k), std::move(d)}; }
    Verdict undecided(std::string k) { return {2, std::move(k), ""}; }

    std::string show(const Rec& r)
    {
        char b[200];
        if (r.what == 2) { snprintf(b, sizeof b, "loop of %lld", static_cast<long long>(r.mb)); return b; }
        if (r.what == 3) return "abandoned";
        if (r.what == 4) return "threw";
        if (r.what == 5) return "killed";
        if (r.what == 6) return "skipped";
        if (r.what == 7) return "done";
        snprintf(b, sizeof b, "%s[%lld,%lld)%s%s", r.accepted ? "match" : "none", static_cast<long long>(r.mb), static_cast<long long>(r.me), r.agree ? "" : " accessors-disagree", r.adv >= 0 ? r.adv ? " true" : " false" : "");
        std::string s = b;
        if (r.type >= 0) s += " class " + std::to_string(r.type);
        for (unsigned i = 0; i < r.ng; ++i) s += " g" + std::to_string(i + 1) + "=[" + std::to_string(r.gb[i]) + "," + std::to_string(r.ge[i]) + ")";
        return s;
    }
    bool same_rec(const Rec& a, const Rec& b)
    {
        if (a.what != b.what || a.adv != b.adv || a.accepted != b.accepted || a.agree != b.agree || a.ne != b.ne || a.ng != b.ng || a.type != b.type || a.mb != b.mb || a.me != b.me) return false;
        for (unsigned i = 0; i < a.ng; ++i)
            if (a.gb[i] != b.gb[i] || a.ge[i] != b.ge[i]) return false;
        return true;
    }
    std::string op_text(const Spec& s, int tid, int nest, int op)
    {
        const auto& v = nest == 0 ? s.thr[static_cast<size_t>(tid)] : s.nested[static_cast<size_t>(nest - 1)];
        if (op < 0 || op >= static_cast<int>(v.size())) return "?";
        return op_name[v[static_cast<size_t>(op)].k];
    }

    // Histories of one script under faults against the same script undisturbed
    std::string compare(const Spec& s, int tid, int nest, const std::vector<Rec>& got, const std::vector<Rec>& want)
    {
        std::map<std::pair<int, int>, std::vector<const Rec*>> g;
        std::map<int, std::vector<const Rec*>>                 w;
        for (auto& r: got)
            if (r.tid == tid && r.nest == nest) g[{r.ex, r.op}].push_back(&r);
        for (auto& r: want)
            if (r.nest == 0) w[r.op].push_back(&r);
        for (auto& [k, v]: g)
        {
            if (v[0]->what == 3 || v[0]->what == 5 || v[0]->what == 6) continue;
            if (v.back()->what == 3 || v.back()->what == 5) continue;
            auto&       x = w[k.second];
            std::string where = (nest ? "interrupting script " + std::to_string(nest) + " on thread " : std::string("thread ")) + std::to_string(tid) + " call " + std::to_string(k.second) + " (" + op_text(s, tid, nest, k.second) + ")";
            for (size_t i = 0; i < v.size() && i < x.size(); ++i)
                if (!same_rec(*v[i], *x[i])) return where + ": got " + show(*v[i]) + ", undisturbed " + show(*x[i]);
            if (v.size() != x.size()) return where + ": " + std::to_string(v.size()) + " results, undisturbed " + std::to_string(x.size());
        }
        return "";
    }

    std::map<std::string, Run> solo_cache; // within a scenario

    const Run& solo(const Spec& s)
    {
        const std::string key = write_spec(s);
        auto              it  = solo_cache.find(key);
        if (it != solo_cache.end()) return it->second;
        if (solo_cache.size() > 400) solo_cache.clear();
        return solo_cache[key] = execute(s, 0, false);
    }

    std::set<int> texts_of(const std::vector<Op>& v)
    {
        std::set<int> r;
        for (auto& o: v)
            if (uses_text(o.k)) r.insert(o.c);
        return r;
    }

    // One script alone in a fresh process, texts at a neutral place, no faults, ample resources
    Spec alone(const Spec& s, const std::vector<Op>& script)
    {
        Spec q;
        q.profile = "alone";
        q.stack   = 0x200000 - 0x1000;
        for (int t: texts_of(script))
        {
            auto it = s.texts.find(t);
            if (it == s.texts.end()) continue;
            q.texts[t]       = it->second;
            q.texts[t].place = 2;
            q.texts[t].left = q.texts[t].right = "";
        }
        std::vector<Op> sc;
        for (auto o: script)
        {
            if (o.k == AMBIENT) o = Op {OBS, NSLOT - 1}; // keeps the numbering; the last slot is never used
            sc.push_back(o);
        }
        q.thr.push_back(sc);
        return q;
    }

    // An incremental cursor model, plus the progress invariants
    struct Cursor
    {
        int                   st = 0; // 0 empty 1 live 2 lost
        int                   def = 0, text = 0;
        uint64_t              gen = 0, version = 0;
        int64_t               from = 0; // start of its query within the text
        std::shared_ptr<Base> list;
        size_t                idx = 0;
        int64_t               shift = 0;
        bool                  known = false, acc = false, beyond = false;
        M1                    cur;
        // what was actually seen last
        bool    seen = false, sacc = false;
        int64_t smb = 0, sme = 0, n = 0;
    };

    struct TextModel
    {
        std::string s;
        uint64_t    gen = 0, version = 0;
    };

    enum Oracle
    {
        O_PROGRESS = 1, // progress invariants
        O_LIST     = 2, // cursor over the uninterrupted scan
        O_TOKENS   = 4, // reference tokenizer
        O_EMPTY    = 8, // a failed search shows nothing
        O_FRESH    = 16,// a fresh search on the suffix follows the uninterrupted scan
    };

    Verdict model(const Spec& s, const Run& run, int tid, int oracles, int nest = 0, int ex = 0)
    {
        std::map<int, TextModel> tx;
        for (auto& [i, t]: s.texts) tx[i].s = t.content();
        Cursor                                 c[NSLOT];
        std::map<int, std::vector<const Rec*>> w;
        for (auto& r: run.recs)
            if (r.tid == tid && r.nest == nest && (nest == 0 || r.ex == ex)) w[r.op].push_back(&r);
        const auto& script = nest ? s.nested[static_cast<size_t>(nest - 1)] : s.thr[static_cast<size_t>(tid)];
        std::string undec;

        auto alive = [&](int i) { return c[i].st == 1 && c[i].gen == tx[c[i].text].gen; };
        auto fail  = [&](const char* kind, size_t op, const std::string& why) {
            return violated(kind, (nest ? "interrupting script " + std::to_string(nest) + " on thread " : std::string("thread ")) + std::to_string(tid) + " call " + std::to_string(op) + " (" + op_name[script[op].k] + "): " + why);
        };
        auto fresh = [&](Cursor& k) { // expectation of a new search on [from, end) of the text as it is now
            const std::string& t = tx[k.text].s;
            k.version            = tx[k.text].version;
            k.list               = nullptr;
            k.idx                = 0;
            k.shift              = k.from;
            k.known              = true;
            k.beyond             = false;
            if (oracles & O_TOKENS)
            {
                const int r = ref_token(k.def, t, k.from, true, k.cur);
                k.known     = r >= 0;
                k.acc       = r == 1;
                if (static_cast<size_t>(k.from) >= t.size()) k.acc = false;
                return;
            }
            if (!(oracles & O_LIST)) { k.known = false; return; }
            k.list = get_base(k.def, t.substr(static_cast<size_t>(k.from)));
            if (!k.list->ok) { k.known = false; undec = "reference:" + k.list->why; return; }
            k.acc = !k.list->list.empty();
            if (k.acc)
            {
                k.cur = k.list->list[0];
                k.cur.mb += k.shift; k.cur.me += k.shift;
                for (auto& g: k.cur.g) if (g.first >= 0) g.first += static_cast<int32_t>(k.shift), g.second += static_cast<int32_t>(k.shift);
            }
        };
        auto at = [&](Cursor& k) {
            if (k.idx < k.list->list.size())
            {
                k.acc = true;
                k.cur = k.list->list[k.idx];
                k.cur.mb += k.shift; k.cur.me += k.shift;
                for (auto& g: k.cur.g) if (g.first >= 0) g.first += static_cast<int32_t>(k.shift), g.second += static_cast<int32_t>(k.shift);
            }
            else if (k.list->whole) k.acc = false;
            else k.known = false, k.beyond = from_constants;
        };
        auto step = [&](Cursor& k) {
            if (!k.known || !k.acc) return;
            const std::string& t = tx[k.text].s;
            if (oracles & O_TOKENS)
            {
                M1        m;
                const int r = ref_token(k.def, t, k.cur.me, false, m);
                k.known     = r >= 0;
                k.acc       = r == 1;
                if (r == 1) k.cur = m;
                return;
            }
            if (!(oracles & O_LIST)) { k.known = false; return; }
            if (k.version == tx[k.text].version)
            {
                ++k.idx;
                at(k);
                return;
            }
            // rewritten since: the continuation is a search on the rest as it is now
            const int64_t pos = k.cur.me + (k.cur.me == k.cur.mb ? 1 : 0);
            if (pos >= static_cast<int64_t>(t.size())) { k.acc = false; return; }
            if (sim_defs[k.def]->anchored || sim_defs[k.def]->kind == 1) { k.known = false; return; }
            const int64_t f0 = k.from;
            k.from           = pos;
            fresh(k);
            k.from = f0;
        };
        // compare expectation and observation
        auto check = [&](Cursor& k, size_t op, bool moved, std::string& why, bool counts = true, const Rec* one = nullptr) -> const char* {
            auto it = w.find(static_cast<int>(op));
            if (it == w.end()) return nullptr;
            const Rec& r = one ? *one : *it->second.back();
            if (r.what == 4) { why = "threw"; return "threw"; }
            if (r.what != 0) return nullptr;
            if (oracles & (O_LIST | O_TOKENS))
            {
                if (k.known)
                {
                    Rec e;
                    memset(&e, 0, sizeof e);
                    e.accepted = k.acc; e.agree = !k.list || k.list->agree; e.ne = k.acc; e.adv = moved ? k.acc : -1; e.type = -1; e.mb = e.me = -1;
                    e.ng = r.ng;
                    for (unsigned i = 0; i < e.ng; ++i) e.gb[i] = e.ge[i] = -1;
                    if (k.acc)
                    {
                        e.mb = k.cur.mb; e.me = k.cur.me; e.type = k.cur.type;
                        for (unsigned i = 0; i < e.ng && i < k.cur.g.size(); ++i) e.gb[i] = k.cur.g[i].first, e.ge[i] = k.cur.g[i].second;
                    }
                    if (!same_rec(r, e))
                    {
                        why = "got " + show(r) + ", expected " + show(e) + " [" + printable(sim_defs[k.def]->text, 200) + " on \"" + printable(tx[k.text].s) + "\"]";
                        return r.agree || !e.agree ? "mismatch" : "accessors";
                    }
                }
                else if (undec.empty() && !k.beyond) undec = "expectation-unknown";
            }
            if ((oracles & O_EMPTY) && !r.accepted)
            {
                bool bad = r.mb != -1 || r.me != -1;
                for (unsigned i = 0; i < r.ng; ++i) bad |= r.gb[i] != -1 || r.ge[i] != -1;
                if (bad) { why = "a failed search shows " + show(r) + " [" + printable(sim_defs[k.def]->text, 200) + " on \"" + printable(tx[k.text].s) + "\"]"; return "stale"; }
            }
            if (oracles & O_PROGRESS)
            {
                const int64_t      n    = static_cast<int64_t>(tx[k.text].s.size());
                const std::string  ctx  = " [" + printable(sim_defs[k.def]->text, 200) + " on \"" + printable(tx[k.text].s) + "\"]";
                if (moved && r.adv != r.accepted) { why = "the step returned " + std::to_string(r.adv) + " but the result says " + std::to_string(r.accepted) + ctx; return "progress"; }
                if (moved && k.seen)
                {
                    if (!k.sacc && r.accepted) { why = "a failed search came back: " + show(r) + ctx; return "progress"; }
                    if (r.accepted)
                    {
                        if (r.mb < k.sme) { why = show(r) + " begins before the end of the previous match [" + std::to_string(k.smb) + "," + std::to_string(k.sme) + ")" + ctx; return "progress"; }
                        if (r.mb == r.me && k.smb == k.sme && r.mb == k.smb) { why = "the same empty match again: " + show(r) + ctx; return "progress"; }
                    }
                }
                if (r.accepted && counts) ++k.n;
                if (k.n > n - k.from + 1) { why = std::to_string(k.n) + " matches in " + std::to_string(n - k.from) + " bytes" + ctx; return "progress"; }
                k.seen = true; k.sacc = r.accepted; k.smb = r.mb; k.sme = r.me;
            }
            return nullptr;
        };

        for (size_t i = 0; i < script.size(); ++i)
        {
            const Op& o   = script[i];
            auto      it  = w.find(static_cast<int>(i));
            const int wh  = it == w.end() ? -1 : it->second.back()->what;
            if (wh == 5) break;
            std::string why;
            const char* k = nullptr;
            const bool  lost = wh == 3 || wh == 4;
            switch (o.k)
            {
                case NEW:
                    c[o.a]     = Cursor {};
                    c[o.a].def = o.b; c[o.a].text = o.c; c[o.a].gen = tx[o.c].gen;
                    c[o.a].st  = lost ? 2 : 1;
                    if (!lost) fresh(c[o.a]);
                    k = check(c[o.a], i, false, why);
                    break;
                case RESUME:
                {
                    if (wh == 6 && c[o.b].st == 2) c[o.a].st = 2;
                    if (wh == 6 || wh == -1) break;
                    if (!alive(o.b)) break;
                    Cursor n = c[o.b];
                    n.st = lost ? 2 : 1;
                    n.n = 0; n.seen = false;
                    if (!n.known || !n.acc) { n.known = false; c[o.a] = n; break; }
                    const int64_t from = o.d ? n.cur.mb : n.cur.me + (n.cur.me == n.cur.mb ? 1 : 0);
                    n.from             = from;
                    if (lost) { c[o.a] = n; break; }
                    if ((oracles & O_FRESH) && n.version == tx[n.text].version && !sim_defs[n.def]->anchored && n.list)
                    {
                        if (!o.d) ++n.idx;
                        at(n); // the uninterrupted scan tells what the fresh search must find
                        ++ST.resumes;
                    }
                    else fresh(n);
                    c[o.a] = n;
                    k      = check(c[o.a], i, false, why);
                    break;
                }
                case ADV:
                    if (wh == 6 || !alive(o.a)) break;
                    if (lost) { c[o.a].st = 2; if (wh == 4) k = check(c[o.a], i, true, why); break; }
                    step(c[o.a]);
                    k = check(c[o.a], i, true, why);
                    break;
                case ADVN:
                    if (wh == 6 || !alive(o.a)) break;
                    for (const Rec* x: it == w.end() ? std::vector<const Rec*> {} : it->second)
                    {
                        if (x->what == 3) break;
                        if (x->what == 0) step(c[o.a]);
                        k = check(c[o.a], i, true, why, true, x);
                        if (k) break;
                    }
                    if (lost) c[o.a].st = 2;
                    break;
                case BURST:
                    c[o.a]     = Cursor {};
                    c[o.a].def = o.b; c[o.a].text = o.c; c[o.a].gen = tx[o.c].gen;
                    c[o.a].st  = lost ? 2 : 1;
                    if (lost) break;
                    fresh(c[o.a]);
                    k = check(c[o.a], i, false, why);
                    break;
                case COPY:
                case MOVE:
                case ASSIGN:
                case MASSIGN:
                    if (wh == 6 && c[o.b].st == 2) c[o.a].st = 2;
                    if (wh == 6 || !alive(o.b)) break;
                    c[o.a] = c[o.b];
                    if (o.k == MOVE || o.k == MASSIGN) { if (o.a != o.b) c[o.b].st = 2; }
                    if (lost) { c[o.a].st = 2; break; }
                    k = check(c[o.a], i, false, why, false);
                    break;
                case BEGIN:
                    if (wh == 6 && c[o.b].st == 2) c[o.a].st = 2;
                    if (wh == 6 || !alive(o.b)) break;
                    c[o.a]      = c[o.b];
                    c[o.a].n    = 0;
                    c[o.a].seen = false;
                    if (lost) { c[o.a].st = 2; break; }
                    fresh(c[o.a]);
                    k = check(c[o.a], i, false, why);
                    break;
                case OBS:
                    if (wh == 6 || !alive(o.a)) break;
                    k = check(c[o.a], i, false, why, false);
                    break;
                case DROP:
                    if (wh == 6) break;
                    c[o.a].st = lost ? 2 : 0;
                    break;
                case RANGE:
                {
                    if (it == w.end() || lost) break;
                    const auto& v = it->second;
                    const int64_t n = static_cast<int64_t>(tx[o.c].s.size());
                    if (v.back()->what != 2) break;
                    const int64_t cnt = v.back()->mb, cap = v.back()->me;
                    const std::string ctx = " [" + printable(sim_defs[o.b]->text, 200) + " on \"" + printable(tx[o.c].s) + "\"]";
                    if (oracles & O_PROGRESS)
                    {
                        if (cnt > n + 1) { why = "a loop over all matches of " + std::to_string(n) + " bytes does not end after " + std::to_string(cnt - 1) + ctx; k = "progress"; }
                        for (size_t j = 1; j + 1 < v.size() && !k; ++j)
                            if (v[j]->mb < v[j - 1]->me || (v[j]->mb == v[j]->me && v[j - 1]->mb == v[j - 1]->me && v[j]->mb == v[j - 1]->mb))
                            {
                                why = "element " + std::to_string(j) + " " + show(*v[j]) + " after " + show(*v[j - 1]) + ctx;
                                k   = "progress";
                            }
                    }
                    if (oracles & (O_LIST | O_TOKENS))
                    {
                        std::vector<M1> e;
                        bool            known = true;
                        size_t          partial = static_cast<size_t>(-1);
                        if (oracles & O_TOKENS)
                        {
                            M1  m;
                            int r = n == 0 ? 0 : ref_token(o.b, tx[o.c].s, 0, true, m);
                            while (r == 1) { e.push_back(m); const int64_t p = m.me; r = ref_token(o.b, tx[o.c].s, p, false, m); }
                            known = r == 0;
                        }
                        else
                        {
                            auto b = get_base(o.b, tx[o.c].s);
                            known  = b->ok && (b->whole || from_constants);
                            e      = b->list;
                            if (b->ok && !b->whole && cnt > static_cast<int64_t>(e.size())) e.resize(static_cast<size_t>(cnt)), partial = b->list.size();
                        }
                        if (!known) { undec = "expectation-unknown"; break; }
                        if (static_cast<int64_t>(e.size()) != cnt && static_cast<int64_t>(e.size()) <= cap) { why = "loop of " + std::to_string(cnt) + " elements, expected " + std::to_string(e.size()) + ctx; k = "mismatch"; }
                        for (size_t j = 0; j + 1 < v.size() && j < e.size() && j < partial && !k; ++j)
                            if (v[j]->mb != e[j].mb || v[j]->me != e[j].me) { why = "element " + std::to_string(j) + ": got " + show(*v[j]) + ", expected [" + std::to_string(e[j].mb) + "," + std::to_string(e[j].me) + ")" + ctx; k = "mismatch"; }
                    }
                    break;
                }
                case FILL:
                    if (o.s.size() != tx[o.c].s.size()) ++tx[o.c].gen;
                    tx[o.c].s = o.s;
                    ++tx[o.c].version;
                    break;
                case EDIT:
                    if (wh != 7) break;
                    if (it->second.back()->mb < static_cast<int64_t>(tx[o.c].s.size()))
                    {
                        tx[o.c].s[static_cast<size_t>(it->second.back()->mb)] = static_cast<char>(o.b);
                        ++tx[o.c].version;
                    }
                    break;
                default: break;
            }
            if (k) return fail(k, i, why);
        }
        if (!undec.empty()) return undecided(undec);
        return {};
    }

    // C09: each search against the same search in a fresh process
    Verdict lineages(const Spec& s, const Run& run)
    {
        std::map<int, std::string> tx;
        for (auto& [i, t]: s.texts) tx[i] = t.content();
        std::map<int, std::vector<const Rec*>> w;
        for (auto& r: run.recs)
            if (r.tid == 0 && r.nest == 0) w[r.op].push_back(&r);
        const auto& sc = s.thr[0];
        for (size_t i = 0; i < sc.size(); ++i)
        {
            const Op& o = sc[i];
            if (o.k == FILL) tx[o.c] = o.s;
            if (o.k == EDIT && o.a < static_cast<int>(tx[o.c].size())) tx[o.c][static_cast<size_t>(o.a)] = static_cast<char>(o.b);
            if (o.k != NEW && o.k != RANGE && o.k != BURST) continue;
            Spec q;
            q.profile = "alone";
            q.stack   = 0x200000 - 0x1000;
            const int slot      = tx[o.c].size() > TEXT_SMALL - 64 ? BIG_TEXT : 0;
            q.texts[slot].pre   = tx[o.c];
            q.texts[slot].nullq = s.texts.at(o.c).nullq;
            std::vector<Op>  v;
            std::vector<int> idx;
            auto             add = [&](Op x, size_t from) {
                x.c = slot;
                if (x.k == BURST) x.k = NEW, x.d = 0;
                if (x.k == NEW || x.k == ADV || x.k == OBS || x.k == ADVN) x.a = 0;
                v.push_back(x);
                idx.push_back(static_cast<int>(from));
            };
            add(o, i);
            if (o.k != RANGE)
                for (size_t j = i + 1; j < sc.size(); ++j)
                {
                    if ((sc[j].k == NEW || sc[j].k == DROP || sc[j].k == BURST) && sc[j].a == o.a) break;
                    if ((sc[j].k == ADV || sc[j].k == OBS || sc[j].k == ADVN) && sc[j].a == o.a) add(sc[j], j);
                    if ((sc[j].k == FILL || sc[j].k == EDIT) && sc[j].c == o.c) add(sc[j], j);
                }
            while (v.size() > 1 && (v.back().k == FILL || v.back().k == EDIT)) v.pop_back(), idx.pop_back();
            q.thr.push_back(v);
            const Run& r = solo(q);
            if (r.state != 1) return undecided("alone:" + r.kind);
            std::map<int, std::vector<const Rec*>> e;
            for (auto& x: r.recs) e[x.op].push_back(&x);
            for (size_t j = 0; j < v.size(); ++j)
            {
                if (v[j].k == FILL || v[j].k == EDIT) continue;
                auto& a = w[idx[j]];
                auto& b = e[static_cast<int>(j)];
                const std::string where = "call " + std::to_string(idx[j]) + " (" + op_name[v[j].k] + ") of the search begun at call " + std::to_string(i) + " [" + printable(sim_defs[o.b]->text, 200) + "]";
                for (size_t m = 0; m < a.size() && m < b.size(); ++m)
                    if (!same_rec(*a[m], *b[m])) return violated("mismatch", where + ": got " + show(*a[m]) + ", in a fresh process " + show(*b[m]));
                if (a.size() != b.size()) return violated("mismatch", where + ": " + std::to_string(a.size()) + " results, in a fresh process " + std::to_string(b.size()));
            }
        }
        return {};
    }

    // C11: all scripts as one thread would do them, phase after phase. Within a phase no thread writes what another
    // uses, so this is what every interleaving must look like.
    Spec in_one_thread(const Spec& s, const Run& run, std::map<std::pair<int, int>, int>& where)
    {
        Spec q;
        q.profile = "alone";
        q.stack   = 0x200000 - 0x1000;
        q.texts   = s.texts;
        for (auto& [i, t]: q.texts) t.place = 2;
        std::vector<size_t> at(s.thr.size()), end(s.thr.size());
        for (size_t t = 0; t < s.thr.size(); ++t) end[t] = s.thr[t].size();
        std::set<std::pair<int, int>> undone; // calls that were abandoned, and those on the cursors lost with them
        for (auto& r: run.recs)
        {
            if (r.nest) continue;
            if (r.what == 5) end[static_cast<size_t>(r.tid)] = static_cast<size_t>(r.op);
            if (r.what == 3 || r.what == 6) undone.insert({r.tid, r.op});
        }
        std::map<std::pair<int, int>, int> slot; // (thread, its slot) -> slot of the one thread
        auto map = [&](int t, int i) {
            const auto k = i >= NSLOT ? std::make_pair(-1, i) : std::make_pair(t, i);
            return slot.emplace(k, static_cast<int>(slot.size())).first->second;
        };
        std::vector<Op> v;
        for (bool more = true; more;)
        {
            more = false;
            for (size_t t = 0; t < s.thr.size(); ++t)
            {
                for (; at[t] < end[t] && s.thr[t][at[t]].k != BARRIER; ++at[t])
                {
                    Op o = s.thr[t][at[t]];
                    if (undone.count({static_cast<int>(t), static_cast<int>(at[t])})) continue;
                    where[{static_cast<int>(t), static_cast<int>(at[t])}] = static_cast<int>(v.size());
                    o.a = map(static_cast<int>(t), o.a);
                    if (o.k == COPY || o.k == MOVE || o.k == BEGIN || o.k == ASSIGN || o.k == MASSIGN || o.k == RESUME) o.b = map(static_cast<int>(t), o.b);
                    v.push_back(o);
                }
                if (at[t] < end[t]) ++at[t], more = true;
            }
        }
        if (static_cast<int>(slot.size()) >= NSLOT || static_cast<int>(v.size()) >= MAXOP) v.clear();
        q.thr.push_back(v);
        return q;
    }

    // Do the scripts keep to the rule: between two barriers, nobody touches what another changes?
    bool disciplined(const Spec& s)
    {
        std::map<std::pair<size_t, int>, int> readers, writers; // (phase, slot) -> bit per thread
        for (size_t t = 0; t < s.thr.size(); ++t)
        {
            size_t ph = 0;
            for (auto& o: s.thr[t])
            {
                auto use = [&](int i, bool w) { if (i >= NSLOT) (w ? writers : readers)[{ph, i}] |= 1 << t; };
                if (o.k == BARRIER) ++ph;
                else if (o.k == OBS) use(o.a, false);
                else if (o.k == NEW || o.k == ADV || o.k == ADVN || o.k == DROP) use(o.a, true);
                else if (o.k == COPY || o.k == BEGIN || o.k == RESUME || o.k == ASSIGN) use(o.a, true), use(o.b, false);
                else if (o.k == MOVE || o.k == MASSIGN) use(o.a, true), use(o.b, true);
                else return false;
            }
        }
        for (auto& [k, w]: writers)
            if ((w & (w - 1)) || (readers.count(k) && (readers[k] & ~w))) return false;
        return true;
    }

    Verdict shared_results(const Spec& s, const Run& run)
    {
        if (!disciplined(s)) return undecided("undisciplined");
        std::map<std::pair<int, int>, int> where;
        const Spec q = in_one_thread(s, run, where);
        if (q.thr[0].empty()) return {};
        const Run& one = solo(q);
        if (one.state != 1) return undecided("alone:" + one.kind);
        std::map<int, std::vector<const Rec*>>                 w;
        std::map<std::pair<int, int>, std::vector<const Rec*>> g;
        for (auto& r: one.recs) w[r.op].push_back(&r);
        for (auto& r: run.recs) g[{r.tid, r.op}].push_back(&r);
        for (auto& [k, v]: g)
        {
            if (v[0]->what == 6 || v.back()->what == 3 || v.back()->what == 5) continue;
            auto&             x  = w[where[k]];
            const std::string at = "thread " + std::to_string(k.first) + " call " + std::to_string(k.second) + " (" + op_text(s, k.first, 0, k.second) + ")";
            for (size_t i = 0; i < v.size() && i < x.size(); ++i)
                if (!same_rec(*v[i], *x[i])) return violated("mismatch", at + ": got " + show(*v[i]) + ", on one thread " + show(*x[i]));
            if (v.size() != x.size()) return violated("mismatch", at + ": " + std::to_string(v.size()) + " results, on one thread " + std::to_string(x.size()));
        }
        return {};
    }

    int model_oracles(const std::string& p)
    {
        if (p == "C05") return O_PROGRESS;
        if (p == "C06") return O_LIST;
        if (p == "C07") return O_LIST | O_EMPTY | O_FRESH;
        if (p == "C08") return O_TOKENS;
        if (p == "C10") return O_LIST;
        return 0;
    }

    Verdict judge(const Spec& s, const Run& r)
    {
        const std::string& p = s.profile;
        const bool killed_env = r.state == 3;
        if (killed_env) return undecided(r.kind);
        if (r.state == 2)
        {
            if ((p == "C01" || p == "C11") && r.kind == "no-progress") return undecided(r.kind);
            if (p == "C11" && r.kind == "stuck")
                for (auto& f: r.ft)
                    if (f.kind != F_ALLOC) return undecided(r.kind); // what a dead thread leaves behind is C02's and C05's
            const bool hard = r.kind == "crash" || r.kind == "thread-gone" || (r.kind == "no-progress" && p != "C05") || r.kind == "stack-exhausted" || (r.kind == "outside-read" && !(g_checks(p) & CK_BOUNDS));
            if (hard)
            {
                // a crash that also happens undisturbed is only for the properties about it
                const bool own = (p == "C04" && r.kind != "no-progress") || p == "C05" || p == "C10"; // the compiler finished it
                if (p == "C04" && r.kind == "outside-read") return undecided(r.kind);
                if (p == "C11")
                {
                    std::map<std::pair<int, int>, int> where;
                    if (!disciplined(s) || solo(in_one_thread(s, Run {}, where)).state != 1) return undecided("crashes-alone");
                }
                else if (!own)
                {
                    for (size_t i = 0; i < s.thr.size(); ++i)
                        if (solo(alone(s, s.thr[i])).state != 1) return undecided("crashes-alone");
                    for (size_t i = 0; i < s.nested.size(); ++i)
                        if (solo(alone(s, s.nested[i])).state != 1) return undecided("crashes-alone");
                }
                if (p == "C05" && r.kind != "crash") return undecided(r.kind);
            }
            return violated(r.kind, r.detail);
        }
        if (p == "C01" || p == "C02" || p == "C03" || p == "C04")
        {
            if (p == "C04")
                for (auto& x: r.recs)
                    if (x.what == 4) return violated("threw", "thread " + std::to_string(x.tid) + " call " + std::to_string(x.op) + " (" + op_text(s, x.tid, x.nest, x.op) + ") threw");
            if (p == "C03")
                for (auto& x: r.recs)
                {
                    if (x.what > 1) continue;
                    if (x.out) return violated("outside-view", "thread 0 call " + std::to_string(x.op) + ": " + show(x));
                }
            Verdict u;
            for (size_t i = 0; i < s.thr.size(); ++i)
            {
                const Run& q = solo(alone(s, s.thr[i]));
                if (q.state != 1) { u = undecided("alone:" + q.kind); continue; }
                const std::string d = compare(s, static_cast<int>(i), 0, r.recs, q.recs);
                if (!d.empty()) return violated("mismatch", d);
            }
            for (size_t i = 0; i < s.nested.size(); ++i)
            {
                bool any = false;
                for (auto& x: r.recs) any |= x.nest == static_cast<int>(i) + 1;
                if (!any) continue;
                const Run& q = solo(alone(s, s.nested[i]));
                if (q.state != 1) { u = undecided("alone:" + q.kind); continue; }
                for (size_t t = 0; t < s.thr.size(); ++t)
                {
                    const std::string d = compare(s, static_cast<int>(t), static_cast<int>(i) + 1, r.recs, q.recs);
                    if (!d.empty()) return violated("mismatch", d);
                }
            }
            return u;
        }
        if (p == "C09") return lineages(s, r);
        if (p == "C11") return shared_results(s, r);
        Verdict u;
        for (size_t i = 0; i < s.thr.size(); ++i)
        {
            Verdict v = model(s, r, static_cast<int>(i), model_oracles(p));
            if (v.v == 1) return v;
            if (v.v == 2) u = v;
        }
        if (p == "C10")
        {
            std::set<std::tuple<int, int, int>> done;
            for (auto& x: r.recs)
            {
                if (x.nest == 0 || !done.emplace(x.tid, x.nest, x.ex).second) continue;
                Verdict v = model(s, r, x.tid, model_oracles(p), x.nest, x.ex);
                if (v.v == 1) return v;
                if (v.v == 2) u = v;
            }
        }
        return u;
    }

    // The explicit form of a run: the same execution, with the schedule and faults it took
    Spec explicit_spec(const Spec& s, const Run& r)
    {
        Spec q     = s;
        q.gen      = false;
        q.switches = r.sw;
        if (!r.sw.empty() && r.sw[0].tid == -1)
        {
            q.first = r.sw[0].to;
            q.switches.erase(q.switches.begin());
        }
        q.faults = r.ft;
        return q;
    }
} // namespace

#include "profiles.hpp"
#include "driver.hpp"
