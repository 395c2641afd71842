// Search loop, minimiser, replay, entry points.
namespace
{
    double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

    int64_t text_bytes(const Spec& s)
    {
        int64_t n = 0;
        for (auto& [i, t]: s.texts) n += static_cast<int64_t>(t.pre.size() + t.suf.size()) + static_cast<int64_t>(t.unit.size()) * t.count;
        return n;
    }

    Verdict run_and_judge(const Spec& s, Run* out = nullptr, bool main_run = false)
    {
        Run     r = execute(s, g_checks(s.profile), main_run);
        Verdict v = judge(s, r);
        if (out) *out = r;
        return v;
    }

    // ---- minimisation: keep the violation kind, lose everything else ----------------------

    Spec drop_op(const Spec& s, bool nested, size_t t, size_t i)
    {
        Spec q  = s;
        auto& v = nested ? q.nested[t] : q.thr[t];
        v.erase(v.begin() + static_cast<long>(i));
        if (nested) return q;
        std::vector<Fault>  f;
        std::vector<Switch> w;
        for (auto x: q.faults)
        {
            if (x.lvl == 0 && x.tid == static_cast<int>(t) && x.op == static_cast<int>(i)) continue;
            if (x.lvl == 0 && x.tid == static_cast<int>(t) && x.op > static_cast<int>(i)) --x.op;
            f.push_back(x);
        }
        for (auto x: q.switches)
        {
            if (x.tid == static_cast<int>(t) && x.op == static_cast<int>(i)) continue;
            if (x.tid == static_cast<int>(t) && x.op > static_cast<int>(i)) --x.op;
            w.push_back(x);
        }
        q.faults   = f;
        q.switches = w;
        return q;
    }

    Spec minimise(const Spec& s0, const std::string& kind, int& tries)
    {
        Spec         s     = s0;
        const double until = now_s() + 25;
        tries              = 0;
        auto still = [&](const Spec& q) {
            if (tries >= 800 || now_s() > until) return false;
            ++tries;
            solo_cache.clear();
            const Verdict v = run_and_judge(q);
            return v.v == 1 && v.kind == kind;
        };
        bool progress = true;
        for (int round = 0; round < 4 && progress; ++round)
        {
            progress = false;
            auto accept = [&](const Spec& q) {
                if (!still(q)) return false;
                s        = q;
                progress = true;
                return true;
            };
            if (s.phase) { Spec q = s; q.phase = 0; accept(q); }
            if (!s.switches.empty()) { Spec q = s; q.switches.clear(); accept(q); }
            for (size_t n = s.switches.size() / 2; n >= 1 && !s.switches.empty(); n /= 2)
                for (size_t i = 0; i < s.switches.size();)
                {
                    Spec q = s;
                    q.switches.erase(q.switches.begin() + static_cast<long>(i), q.switches.begin() + static_cast<long>(std::min(i + n, s.switches.size())));
                    if (!accept(q)) i += n;
                }
            for (size_t i = 0; i < s.faults.size();)
            {
                Spec q = s;
                q.faults.erase(q.faults.begin() + static_cast<long>(i));
                if (!accept(q)) ++i;
            }
            for (size_t t = 0; t < s.thr.size(); ++t) // threads that have nothing but barriers to pass
                if (s.profile == "C11" && !s.thr[t].empty() && std::all_of(s.thr[t].begin(), s.thr[t].end(), [](const Op& o) { return o.k == BARRIER; }))
                {
                    Spec q = s;
                    q.thr[t].clear();
                    accept(q);
                }
            for (size_t t = 0; t < s.thr.size(); ++t)
                if (!s.thr[t].empty() && s.thr.size() > 1)
                {
                    Spec q = s;
                    q.thr[t].clear();
                    q.faults.clear();
                    for (auto& f: s.faults) if (f.tid != static_cast<int>(t)) q.faults.push_back(f);
                    q.switches.clear();
                    for (auto& w: s.switches) if (w.tid != static_cast<int>(t)) q.switches.push_back(w);
                    accept(q);
                }
            for (int nest = 0; nest < 2; ++nest)
                for (size_t t = 0; t < (nest ? s.nested : s.thr).size(); ++t)
                    for (size_t i = (nest ? s.nested : s.thr)[t].size(); i-- > 0;)
                    {
                        if (i >= (nest ? s.nested : s.thr)[t].size()) continue;
                        if (!nest && s.thr[t][i].k == BARRIER) continue;
                        accept(drop_op(s, nest != 0, t, i));
                    }
            for (int n = 0; s.profile == "C11" && n < 40; ++n) // two phases become one
            {
                Spec q   = s;
                bool any = false;
                for (size_t t = 0; t < q.thr.size(); ++t)
                    for (size_t i = 0, k = 0; i < q.thr[t].size(); ++i)
                        if (q.thr[t][i].k == BARRIER && static_cast<int>(k++) == n)
                        {
                            q   = drop_op(q, false, t, i);
                            any = true;
                            break;
                        }
                if (!any) break;
                if (disciplined(q) && accept(q)) --n;
            }
            for (size_t t = 0; t < s.thr.size(); ++t)
                for (size_t i = 0; i < s.thr[t].size(); ++i)
                {
                    auto count = [&](Spec& q) -> int* { return q.thr[t][i].k == ADVN ? &q.thr[t][i].b : q.thr[t][i].k == BURST ? &q.thr[t][i].d : nullptr; };
                    if (!count(s)) continue;
                    for (int n = *count(s) / 2; n >= 1; n /= 2)
                        while (*count(s) > n)
                        {
                            Spec q = s;
                            *count(q) -= n;
                            if (!accept(q)) break;
                        }
                }
            for (size_t i = 0; i < s.faults.size(); ++i)
            {
                if (s.faults[i].kind != F_ABANDON) continue;
                for (int64_t n = (s.faults[i].arg + 1) / 2; n >= 1; n /= 2)
                    while (s.faults[i].arg >= n)
                    {
                        Spec q = s;
                        q.faults[i].arg -= n;
                        if (!accept(q)) break;
                    }
            }
            for (auto& [ti, tx]: Spec(s).texts)
            {
                for (int64_t c = s.texts[ti].count; c > 0; c /= 2)
                {
                    Spec q = s;
                    if (q.texts[ti].count < c) continue;
                    q.texts[ti].count -= c;
                    while (accept(q) && q.texts[ti].count >= c) q.texts[ti].count -= c;
                }
                if (from_constants) // only a text the compiler has seen can be judged
                {
                    std::set<std::pair<size_t, std::string>> other;
                    for (auto* l: {&s.thr, &s.nested})
                        for (auto& v: *l)
                            for (auto& o: v)
                                if (uses_def(o.k) && o.c == ti && sim_ct[o.b])
                                    for (const Ct* c = sim_ct[o.b]; c->text; ++c)
                                        if (c->len < s.texts[ti].pre.size()) other.emplace(c->len, std::string(c->text, c->len));
                    for (auto& [n, x]: other)
                    {
                        Spec q          = s;
                        q.texts[ti].pre = x;
                        if (accept(q)) break;
                    }
                }
                for (size_t n = std::max<size_t>(1, s.texts[ti].pre.size() / 2); n >= 1 && !from_constants; n /= 2)
                    for (size_t i = 0; i < s.texts[ti].pre.size();)
                    {
                        Spec q = s;
                        q.texts[ti].pre.erase(i, n);
                        if (!accept(q)) i += n;
                    }
                for (int side = 0; side < 2; ++side)
                {
                    auto side_of = [&](Spec& q) -> std::string& { return side ? q.texts[ti].left : q.texts[ti].right; };
                    if (!side_of(s).empty()) { Spec q = s; side_of(q).clear(); accept(q); }
                    while (side_of(s).size() > 1) { Spec q = s; side_of(q).resize(side_of(q).size() - 1); if (!accept(q)) break; }
                }
                if (s.texts[ti].place != 2) { Spec q = s; q.texts[ti].place = 2; accept(q); }
                bool used = false;
                for (auto& v: s.thr) for (auto& o: v) used |= uses_text(o.k) && o.c == ti;
                for (auto& v: s.nested) for (auto& o: v) used |= uses_text(o.k) && o.c == ti;
                if (!used) { Spec q = s; q.texts.erase(ti); accept(q); }
            }
            if (s.ambient0) { Spec q = s; q.ambient0 = 0; accept(q); }
        }
        return s;
    }

    // ---- search ---------------------------------------------------------------------------

    struct Found
    {
        bool        any = false;
        uint64_t    scenario = 0;
        std::string kind, detail, file, note;
        bool        unstable = false;
        uint64_t    hash = 0;
    };

    std::string brief(const Spec& s, const Run& r)
    {
        std::ostringstream o;
        std::set<std::string> d;
        for (auto& t: s.thr) for (auto& q: t) if (uses_def(q.k)) d.insert(printable(sim_defs[q.b]->text, 100));
        o << "threads=" << s.thr.size() << " defs={";
        for (auto& x: d) o << " \"" << x << "\"";
        o << " } texts={";
        for (auto& [i, t]: s.texts) o << " \"" << printable(t.pre, 40) << (t.count ? "(" + printable(t.unit, 20) + ")*" + std::to_string(t.count) : std::string()) << "\"";
        o << " } scripts={";
        for (auto& t: s.thr) { o << " ["; for (auto& q: t) o << " " << op_name[q.k]; o << " ]"; }
        o << " } faults={";
        for (auto& f: r.ft) o << " " << fault_name[f.kind] << "@t" << f.tid << ".call" << f.op << ".step" << f.step << (f.lvl ? ".level" + std::to_string(f.lvl) : "") << (f.kind == F_ABANDON && f.arg ? ".times" + std::to_string(f.arg + 1) : "");
        o << " } switches=" << r.sw.size() << " steps=" << r.steps;
        if (s.phase) o << " phase=" << (s.phase == 1 ? "before-static-init" : "at-exit");
        return o.str();
    }

    void search(const std::string& prop, uint64_t seed, uint64_t patseed, int w, int nw, uint64_t scenarios, double seconds, const std::string& outdir, Found& found, FILE* hashes)
    {
        const double t0 = now_s();
        for (uint64_t no = static_cast<uint64_t>(w); no < scenarios && !found.any; no += static_cast<uint64_t>(nw))
        {
            if (now_s() - t0 > seconds) break;
            solo_cache.clear();
            Spec base    = scenario(prop, seed, no);
            base.patseed = patseed;
            ++ST.scenarios;
            for (auto& t: base.thr)
                for (auto& o: t)
                {
                    ++ST.ops[o.k];
                    if (uses_def(o.k)) ST.defs.insert(o.b);
                }
            if (base.grow) // as long as it is affordable
            {
                Text&        t     = base.texts[BIG_TEXT];
                const double limit = prop == "C01" || prop == "C02" ? 700000 : base.grow > 100000 ? 40000000 : 2000000;
                double       prev  = 0;
                for (;;)
                {
                    const Run    q    = execute(base, g_checks(prop), false);
                    const double size = static_cast<double>(text_bytes(base)), rate = prev > 0 ? std::max(4.0, static_cast<double>(q.steps) / prev) : 16;
                    if (q.state != 1 || size >= static_cast<double>(base.grow) || static_cast<double>(q.steps) * rate * 1.2 > limit) break;
                    prev    = static_cast<double>(q.steps);
                    t.count = std::max<int64_t>(t.count + 1, std::min<int64_t>(t.count * 4, base.grow / static_cast<int64_t>(t.unit.size()) + 1));
                }
                const int64_t size = text_bytes(base);
                for (auto& v: base.thr)
                    for (auto& o: v)
                        if (o.k == EDIT && o.c == BIG_TEXT && o.d == 0) o.a = static_cast<int>(o.a * size / 65536);
            }
            auto one = [&](const Spec& s, int k, Run& r) {
                Verdict v = run_and_judge(s, &r, true);
                if (hashes) fprintf(hashes, "%s %llu %d %016llx %d %s\n", prop.c_str(), static_cast<unsigned long long>(no), k, static_cast<unsigned long long>(r.hash), v.v, v.kind.c_str());
                ++ST.judged;
                uint64_t acc = 0, ev = r.ft.size() + r.sw.size();
                for (auto& x: r.recs) acc += x.accepted && x.what <= 1;
                ST.matches += acc;
                ST.maxbytes = std::max<uint64_t>(ST.maxbytes, static_cast<uint64_t>(text_bytes(s)));
                if (s.texts.count(BIG_TEXT)) ++ST.big;
                uint64_t h = mix(r.sched, no);
                for (auto& f: r.ft) h = mix(mix(h, static_cast<uint64_t>(f.kind * 1000 + f.tid * 100 + f.op + f.lvl * 100000)), static_cast<uint64_t>(f.step));
                for (auto& x: r.recs) h = hash_rec(h, x);
                h = mix(mix(h, static_cast<uint64_t>(s.ambient0)), static_cast<uint64_t>(s.phase));
                for (auto& [i, t]: s.texts) h = mix(h, static_cast<uint64_t>(t.place) + (t.right.empty() ? 0 : static_cast<uint64_t>(static_cast<unsigned char>(t.right[0])) << 8));
                ST.schedules.insert(mix(r.sched, static_cast<uint64_t>(r.ft.size())) ^ mix(7, no));
                if (acc > 0 && (ev > 1 || r.recs.size() > 2 || s.phase) && v.v != 2)
                    if (ST.distinct.insert(h).second) ++ST.nontrivial;
                if (ST.samples.size() < 2 && ev > 2 && acc > 0) ST.samples.push_back("scenario " + std::to_string(no) + " variant " + std::to_string(k) + ": " + brief(s, r));
                if (v.v == 2)
                {
                    ++ST.undecided, ++ST.why[v.kind];
                    static const bool tell = getenv("SIM_UNDECIDED"); // a debugging aid
                    if (tell) fprintf(stderr, "UNDECIDED %s: run %s %s: scenario %llu variant %d: %s\n", v.kind.c_str(), r.kind.c_str(), r.detail.c_str(), (unsigned long long) no, k, brief(s, r).c_str());
                }
                if (v.v == 1)
                {
                    found.any      = true;
                    found.scenario = no;
                    Spec      e    = explicit_spec(s, r);
                    int       tries = 0;
                    solo_cache.clear();
                    Run           r1;
                    const Verdict v1 = run_and_judge(e, &r1);
                    if (v1.v != 1 || v1.kind != v.kind)
                    {
                        found.unstable = true;
                        found.note     = "explicit form of the run gives '" + v1.kind + "' instead of '" + v.kind + "': " + v.detail;
                        return v;
                    }
                    e = minimise(e, v.kind, tries);
                    Run a, b;
                    solo_cache.clear();
                    const Verdict va = run_and_judge(e, &a);
                    solo_cache.clear();
                    const Verdict vb = run_and_judge(e, &b);
                    if (va.v != 1 || vb.v != 1 || a.hash != b.hash || va.kind != v.kind || vb.kind != v.kind)
                    {
                        found.unstable = true;
                        found.note     = "minimised run is not repeatable";
                        return v;
                    }
                    found.kind   = va.kind;
                    found.detail = va.detail;
                    found.hash   = a.hash;
                    found.note   = std::to_string(tries) + " minimisation runs";
                    char name[600];
                    snprintf(name, sizeof name, "%s/%s-%llu-%llu-%d.replay", outdir.c_str(), prop.c_str(), static_cast<unsigned long long>(seed), static_cast<unsigned long long>(no), k + 1);
                    found.file = name;
                    if (FILE* f = fopen(name, "w"))
                    {
                        const std::string t = write_spec(e);
                        const size_t      nl = t.find('\n') + 1;
                        fprintf(f, "%sproperty %s\nexpect %s  # %s\n%s", t.substr(0, nl).c_str(), prop.c_str(), va.kind.c_str(), va.detail.c_str(), t.substr(nl).c_str());
                        fclose(f);
                    }
                }
                return v;
            };
            Run     dry;
            Verdict v;
            if (prop != "C09")
            {
                v = one(base, -1, dry);
                if (v.v == 1) break;
                if (dry.state != 1) continue;
            }
            Spec b2 = base;
            if (prop == "C04" && base.texts.count(BIG_TEXT))
            {
                // grow to the size the step limit allows
                auto&         t   = b2.texts[BIG_TEXT];
                const int64_t per = static_cast<int64_t>(dry.steps) / 4000 + 1;
                if (per < 500) t.count = std::min<int64_t>(1500000, 25000000 / per) / static_cast<int64_t>(t.unit.size());
            }
            for (int k = 0; k < (base.grow ? std::min(4, variants_of(prop)) : variants_of(prop)) && !found.any; ++k)
            {
                Spec s = variant(b2, dry, no, k);
                Run  r;
                one(s, k, r);
                if (prop == "C04" && b2.texts.count(BIG_TEXT)) break; // one variant of the big ones
            }
        }
    }

    void write_stats(FILE* f, const Found& found, double wall)
    {
        fprintf(f, "{\"runs\":%llu,\"judged\":%llu,\"reference_runs\":%llu,\"steps\":%llu,\"reference_steps\":%llu,\"switches\":%llu,\"undecided\":%llu,\"scenarios\":%llu,\"nontrivial\":%llu,\"matches\":%llu,"
                   "\"shared_accesses\":%llu,\"race_checks\":%llu,\"text_reads\":%llu,\"allocations\":%llu,\"allocations_failed\":%llu,\"resumes\":%llu,\"big_runs\":%llu,\"max_bytes\":%llu,\"max_call_steps\":%llu,\"wall\":%.2f",
                (unsigned long long) ST.runs, (unsigned long long) ST.judged, (unsigned long long) (ST.aux + ST.lens), (unsigned long long) ST.steps, (unsigned long long) ST.auxsteps, (unsigned long long) ST.switches,
                (unsigned long long) ST.undecided, (unsigned long long) ST.scenarios, (unsigned long long) ST.nontrivial, (unsigned long long) ST.matches, (unsigned long long) ST.hot, (unsigned long long) ST.races,
                (unsigned long long) ST.text_reads, (unsigned long long) ST.allocs, (unsigned long long) ST.allocs_failed, (unsigned long long) ST.resumes, (unsigned long long) ST.big, (unsigned long long) ST.maxbytes, (unsigned long long) ST.maxop, wall);
        fprintf(f, ",\"faults\":{");
        for (int i = 0; i < F_NKINDS; ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", fault_name[i], (unsigned long long) ST.fired[i]);
        fprintf(f, "},\"ops\":{");
        for (int i = 0; i < NOPKINDS; ++i) fprintf(f, "%s\"%s\":%llu", i ? "," : "", op_name[i], (unsigned long long) ST.ops[i]);
        fprintf(f, "},\"phases\":{\"main\":%llu,\"before_static_init\":%llu,\"at_exit\":%llu},\"undecided_why\":{", (unsigned long long) ST.phase[0], (unsigned long long) ST.phase[1], (unsigned long long) ST.phase[2]);
        bool first = true;
        for (auto& [k, v]: ST.why) fprintf(f, "%s\"%s\":%llu", first ? "" : ",", k.c_str(), (unsigned long long) v), first = false;
        fprintf(f, "},\"schedules\":[");
        first = true;
        for (auto h: ST.schedules) fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long) h), first = false;
        fprintf(f, "],\"sites\":[");
        first = true;
        for (auto h: ST.sites) fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long) h), first = false;
        fprintf(f, "],\"defs\":[");
        first = true;
        for (auto h: ST.defs) fprintf(f, "%s%d", first ? "" : ",", h), first = false;
        fprintf(f, "],\"ndefs\":%u,\"samples\":[", sim_ndefs);
        first = true;
        for (auto& s: ST.samples) fprintf(f, "%s\"%s\"", first ? "" : ",", json_escape(s).c_str()), first = false;
        fprintf(f, "],\"found\":%s,\"unstable\":%s,\"scenario\":%llu,\"kind\":\"%s\",\"detail\":\"%s\",\"replay\":\"%s\",\"note\":\"%s\",\"hash\":\"%016llx\"}\n", found.any ? "true" : "false", found.unstable ? "true" : "false",
                (unsigned long long) found.scenario, json_escape(found.kind).c_str(), json_escape(found.detail).c_str(), json_escape(found.file).c_str(), json_escape(found.note).c_str(), (unsigned long long) found.hash);
    }

    void map_shm(int fd)
    {
        void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) { perror("shm"); _exit(2); }
        shm = static_cast<Shm*>(p);
    }

    // The other phases of a process's life
    Spec* phase_spec;
    int   phase_checks;

    void run_phase()
    {
        rt_run(*phase_spec, phase_checks);
        _exit(0);
    }
    void late_phase() { run_phase(); }

    __attribute__((constructor(101))) void early(int argc, char** argv, char**)
    {
        if (argc != 6 || strcmp(argv[1], "--phase")) return;
        map_shm(atoi(argv[4]));
        phase_checks = atoi(argv[5]);
        phase_spec   = new Spec;
        std::string t(1 << 21, 0);
        const int   fd = atoi(argv[3]);
        ssize_t     n  = pread(fd, t.data(), t.size(), 0);
        t.resize(n > 0 ? static_cast<size_t>(n) : 0);
        std::istringstream in(t);
        std::string        a, b;
        read_spec(in, *phase_spec, a, b);
        rt_map_arena();
        if (atoi(argv[2]) == 1) run_phase();
        atexit(late_phase); // registered first, so it runs after every static destructor
    }
} // namespace

int main(int argc, char** argv)
{
    std::map<std::string, std::string> opt;
    for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    if (opt.count("--phase")) return 0; // static destructors, then late_phase
    ssize_t l = readlink("/proc/self/exe", self_path, sizeof self_path - 1);
    if (l <= 0) return 2;
    shm_fd = memfd_create("shm", 0);
    if (shm_fd < 0 || ftruncate(shm_fd, sizeof(Shm))) return 2;
    map_shm(shm_fd);
    rt_map_arena();
    index_defs();
    for (unsigned i = 0; i < sim_ndefs; ++i)
        if (sim_defs[i]->size > SLOT_BYTES) { fprintf(stderr, "cursor too large: %s\n", sim_defs[i]->text); return 2; }
    const std::string prop = opt["--property"];
    from_constants         = prop == "C10";
    if (opt.count("--replay"))
    {
        FILE* f = fopen(opt["--replay"].c_str(), "r");
        if (!f) { perror("replay"); return 2; }
        std::string t;
        char        buf[4096];
        size_t      n;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0) t.append(buf, n);
        fclose(f);
        std::istringstream in(t);
        Spec               s;
        std::string        p, e;
        if (!read_spec(in, s, p, e)) return 2;
        from_constants = p == "C10";
        Run           r;
        const Verdict v = run_and_judge(s, &r);
        printf("%s property=%s kind=%s hash=%016llx expected=%s\n%s\n", v.v == 1 ? "VIOLATED" : v.v == 2 ? "UNDECIDED" : "HELD", p.c_str(), v.kind.c_str(), (unsigned long long) r.hash, e.c_str(), v.detail.c_str());
        return v.v == 1 ? 1 : 0;
    }
    if (opt.count("--list"))
    {
        for (unsigned i = 0; i < sim_ndefs; ++i) printf("%u %d q=%d groups=%u anchored=%d size=%zu %s\n", i, sim_defs[i]->kind, sim_defs[i]->q, sim_defs[i]->groups, sim_defs[i]->anchored, sim_defs[i]->size, printable(sim_defs[i]->text, 200).c_str());
        return 0;
    }
    if (opt.count("--repeat")) // one scenario variant many times: is it exactly repeatable?
    {
        const uint64_t no = strtoull(opt["--repeat"].c_str(), nullptr, 10);
        const int      k  = atoi(opt["--variant"].c_str());
        Spec           base = scenario(prop, strtoull(opt["--seed"].c_str(), nullptr, 10), no);
        Run            dry;
        if (prop != "C09") dry = execute(base, g_checks(prop), false);
        const Spec s = k < 0 ? base : variant(base, dry, no, k);
        std::map<uint64_t, int> seen;
        for (int i = 0; i < atoi(opt["--times"].c_str()); ++i)
        {
            const Run r = execute(s, g_checks(prop), false);
            if (seen[r.hash]++) continue;
            printf("== run %d hash %016llx state %d %s steps %llu hot %llu sched %llx dry %llx\n", i, (unsigned long long) r.hash, r.state, r.kind.c_str(), (unsigned long long) r.steps, (unsigned long long) r.hot, (unsigned long long) r.sched, (unsigned long long) dry.hash);
            for (auto& x: r.recs) printf("rec t%d n%d op%d %s\n", x.tid, x.nest, x.op, show(x).c_str());
            for (auto& x: r.sw) printf("sw t%d op%d step%lld to%d\n", x.tid, x.op, (long long) x.step, x.to);
            for (auto& x: r.ft) printf("ft k%d t%d op%d step%lld\n", x.kind, x.tid, x.op, (long long) x.step);
            for (int t = 0; t < MAXT; ++t) for (int o = 0; o < MAXOP; ++o) if (r.opsteps[t][o]) printf("steps t%d op%d %lld\n", t, o, (long long) r.opsteps[t][o]);
        }
        for (auto& [h, n]: seen) printf("%016llx %d\n", (unsigned long long) h, n);
        return 0;
    }
    Found        found;
    const double t0 = now_s();
    FILE*        hashes = opt.count("--hashes") ? fopen(opt["--hashes"].c_str(), "w") : nullptr;
    search(prop, strtoull(opt["--seed"].c_str(), nullptr, 10), strtoull(opt["--patseed"].c_str(), nullptr, 10), atoi(opt["--worker"].c_str()), atoi(opt["--workers"].c_str()),
           strtoull(opt["--scenarios"].c_str(), nullptr, 10), atof(opt["--seconds"].c_str()), opt["--outdir"], found, hashes);
    if (hashes) fclose(hashes);
    FILE* f = fopen(opt["--out"].c_str(), "w");
    if (!f) { perror("out"); return 2; }
    write_stats(f, found, now_s() - t0);
    fclose(f);
    return 0;
}
