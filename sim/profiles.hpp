// Scenario generators, one per property. A scenario is texts and caller scripts; variants of it
// differ in schedule and faults.
namespace
{
    constexpr int SCRIPT_MAX = 64;

    struct Scenario
    {
        Spec             base;
        std::vector<int> defs;
    };

    std::vector<int> regexes, plain_regexes, tokenizers;
    std::vector<int> constant_regexes, constant_tokenizers; // C10: those the compiler has evaluated

    void index_defs()
    {
        for (unsigned i = 0; i < sim_ndefs; ++i)
        {
            if (sim_defs[i]->kind == 1) tokenizers.push_back(static_cast<int>(i));
            else
            {
                regexes.push_back(static_cast<int>(i));
                if (!sim_defs[i]->anchored) plain_regexes.push_back(static_cast<int>(i));
            }
            if (sim_ct[i]) (sim_defs[i]->kind == 1 ? constant_tokenizers : constant_regexes).push_back(static_cast<int>(i));
        }
    }

    int pick(Rng& r, const std::vector<int>& v) { return v[r.below(v.size())]; }
    int pick_def(Rng& r, double tok = 0.2) { return !tokenizers.empty() && r.chance(tok) ? pick(r, tokenizers) : pick(r, regexes); }

    int text_limit(const Def& d)
    {
        const int n = d.q <= 1 ? 64 : d.q == 2 ? 40 : d.q == 3 ? 24 : 14;
        return d.samples[0] ? std::max(n, static_cast<int>(d.sample_len[0]) + 8) : n;
    }

    std::string a_sample(Rng& r, const Def& d)
    {
        int n = 0;
        while (d.samples[n]) ++n;
        if (n == 0) return "";
        const auto i = r.below(static_cast<uint64_t>(n));
        return std::string(d.samples[i], d.sample_len[i]);
    }
    char a_char(Rng& r, const Def& d)
    {
        const size_t n = strlen(d.alphabet);
        if (n == 0 || r.chance(0.04)) return static_cast<char>(r.below(256));
        return d.alphabet[r.below(n)];
    }

    // A piece of something that matches, many times over, and then what belongs there, or something else: what a
    // repetition takes, and has to give back.
    std::string pumped_text(Rng& r, const Def& d, int maxn)
    {
        std::string a = a_sample(r, d);
        if (a.empty()) a = std::string(1, a_char(r, d));
        const size_t i = r.below(a.size()), n = r.chance(0.6) ? 1 : 1 + r.below(a.size() - i);
        std::string  s = a.substr(0, i), u = a.substr(i, n), c = a.substr(i + n);
        const int    m = static_cast<int>(r.below(4));
        if (m == 1) c = std::string(1, a_char(r, d));
        else if (m == 2) c.clear();
        else if (m == 3 && !c.empty()) c[0] = a_char(r, d);
        const int room = std::max(0, maxn - static_cast<int>(s.size() + c.size()));
        const int k    = r.chance(0.6) ? room : r.range(0, room);
        for (int j = 0; j + static_cast<int>(u.size()) <= k; j += static_cast<int>(u.size())) s += u;
        s += c;
        if (static_cast<int>(s.size()) > maxn) s.resize(static_cast<size_t>(maxn));
        return s;
    }

    std::string make_text(Rng& r, const Def& d, int maxn)
    {
        std::string s;
        const int   mode = static_cast<int>(r.below(9));
        if (mode == 8) s = pumped_text(r, d, maxn);
        else if (mode == 0)
        {
            const int n = r.range(0, maxn);
            for (int i = 0; i < n; ++i) s += a_char(r, d);
        }
        else if (mode == 1 || mode == 2)
        {
            const int k = r.range(1, 6);
            for (int i = 0; i < k; ++i)
            {
                s += a_sample(r, d);
                if (r.chance(0.6))
                    for (int j = r.range(1, 2); j > 0; --j) s += a_char(r, d);
            }
        }
        else if (mode == 3)
        {
            const std::string u = a_sample(r, d);
            for (int i = 0; i < 12 && static_cast<int>(s.size()) < maxn; ++i) s += u;
        }
        else if (mode == 4)
        {
            s = a_sample(r, d);
            for (int k = r.range(1, 3); k > 0 && !s.empty(); --k)
            {
                const size_t p = r.below(s.size());
                if (r.chance(0.4)) s[p] = a_char(r, d);
                else if (r.chance(0.5)) s.erase(p, 1);
                else s.insert(p, 1, a_char(r, d));
            }
        }
        else if (mode == 5)
        {
            s.assign(static_cast<size_t>(r.range(1, maxn)), a_char(r, d));
            if (r.chance(0.5)) s += a_char(r, d);
        }
        else if (mode == 6)
        {
            const int n = r.range(0, 4);
            for (int i = 0; i < n; ++i) s += a_char(r, d);
        }
        else
        {
            const int n = r.range(0, 3);
            for (int i = 0; i < n; ++i) s += a_char(r, d);
            s += a_sample(r, d);
            s += a_sample(r, d);
        }
        if (r.chance(0.1) && !s.empty()) s.resize(r.below(s.size() + 1)); // truncated at any byte
        if (static_cast<int>(s.size()) > maxn) s.resize(static_cast<size_t>(maxn));
        return s;
    }

    Text text_of(Rng& r, const std::string& s)
    {
        Text t;
        t.pre   = s;
        t.place = r.chance(0.15) ? 3 : 2;
        t.nullq = s.empty() && r.chance(0.3);
        return t;
    }

    // C10: a text the compiler has evaluated
    std::string constant_text(Rng& r, int def)
    {
        static std::map<int, std::vector<std::string>> cache;
        auto& v = cache[def];
        if (v.empty())
            for (const Ct* c = sim_ct[def]; c->text; ++c) v.emplace_back(c->text, c->len);
        const bool huge = v.size() > 3 && v.back().size() > 1000;
        if (huge && r.chance(0.02)) return v.back();
        if (huge) return v[v.size() - 2 - (r.chance(0.3) ? r.below(3) : r.below(v.size() - 1))];
        if (v.size() > 3 && r.chance(0.3)) return v[v.size() - 1 - r.below(3)]; // the long ones come last
        return v[r.below(v.size())];
    }

    // A script over slots 0..ns-1, definitions defs and texts
    struct ScriptCfg
    {
        int  ns = 4, len = 10;
        bool copies = true, resume = false, range = true, drop = true;
        bool edits = false; // private text
        std::vector<std::pair<int, int>> uses; // (def, text)
    };

    std::vector<Op> make_script(Rng& r, const ScriptCfg& c, const std::map<int, Text>& tx)
    {
        std::vector<Op> v;
        bool            live[NSLOT] = {};
        int             of[NSLOT]   = {};
        auto            any         = [&](bool l) {
            std::vector<int> k;
            for (int i = 0; i < c.ns; ++i)
                if (live[i] == l) k.push_back(i);
            return k.empty() ? -1 : k[r.below(k.size())];
        };
        auto open = [&](int slot) {
            const size_t u = r.below(c.uses.size());
            v.push_back(Op {NEW, slot, c.uses[u].first, c.uses[u].second, static_cast<int>(r.below(5)), ""});
            live[slot] = true;
            of[slot]   = static_cast<int>(u);
        };
        open(0);
        while (static_cast<int>(v.size()) < c.len)
        {
            const int s = any(true), f = any(false) >= 0 ? any(false) : static_cast<int>(r.below(static_cast<uint64_t>(c.ns)));
            const double x = static_cast<double>(r.below(1000)) / 1000;
            if (s < 0 || x < 0.12) { open(f); continue; }
            if (x < 0.15) v.push_back(Op {ADVN, s, r.chance(0.7) ? r.range(2, 6) : 70, 0, 0, ""});
            else if (x < 0.52) v.push_back(Op {ADV, s, 0, 0, static_cast<int>(r.below(2)), ""});
            else if (x < 0.60) v.push_back(Op {OBS, s});
            else if (x < 0.68 && c.range)
            {
                const size_t u = r.below(c.uses.size());
                v.push_back(Op {RANGE, 0, c.uses[u].first, c.uses[u].second, static_cast<int>(r.below(5)), ""});
            }
            else if (x < 0.74 && c.resume && f != s)
            {
                v.push_back(Op {RESUME, f, s, 0, 0, ""});
                live[f] = true;
                of[f]   = of[s];
            }
            else if (x < 0.80 && c.edits)
            {
                const int   t = c.uses[r.below(c.uses.size())].second;
                const Def&  d = *sim_defs[c.uses[r.below(c.uses.size())].first];
                const auto& b = tx.at(t);
                const int   n = static_cast<int>(b.pre.size());
                if (n == 0) continue;
                v.push_back(Op {EDIT, static_cast<int>(r.below(static_cast<uint64_t>(n))), static_cast<unsigned char>(a_char(r, d)), t, 0, ""});
            }
            else if (c.copies)
            {
                const int k = static_cast<int>(r.below(6));
                if (k <= 1 && f != s) { v.push_back(Op {COPY, f, s}); live[f] = true; of[f] = of[s]; }
                else if (k == 2 && f != s) { v.push_back(Op {MOVE, f, s}); live[f] = true; of[f] = of[s]; live[s] = false; }
                else if (k == 3 && f != s) { v.push_back(Op {BEGIN, f, s}); live[f] = true; of[f] = of[s]; }
                else if (k == 4)
                {
                    int o = -1;
                    for (int i = 0; i < c.ns; ++i)
                        if (live[i] && c.uses[static_cast<size_t>(of[i])].first == c.uses[static_cast<size_t>(of[s])].first && (i != s || r.chance(0.1))) o = i;
                    if (o >= 0)
                    {
                        const bool mv = o != s && r.chance(0.3);
                        v.push_back(Op {mv ? MASSIGN : ASSIGN, o, s});
                        of[o] = of[s];
                        if (mv) live[s] = false;
                    }
                }
                else if (c.drop && r.chance(0.5)) { v.push_back(Op {DROP, s}); live[s] = false; }
            }
        }
        for (int i = 0; i < c.ns && static_cast<int>(v.size()) < SCRIPT_MAX - 2; ++i)
            if (live[i]) v.push_back(Op {OBS, i});
        return v;
    }

    void neighbours(Rng& r, const Def& d, Text& t, const std::string& cont, const std::string& before)
    {
        const int k = static_cast<int>(r.below(5));
        t.right     = cont;
        t.left      = before;
        if (k == 0) t.right += "\n" + a_sample(r, d);
        if (k == 1) t.right = "\n\n", t.left = "\n";
        if (k == 2) { t.right = a_sample(r, d); t.left = a_sample(r, d); }
        if (k == 3) { t.right.assign(3, a_char(r, d)); t.left.assign(3, a_char(r, d)); }
        if (t.right.empty()) t.right = "\n";
        if (t.left.empty()) t.left = "a";
        t.place = static_cast<int>(r.below(4));
    }

    // A long text: repeated units, far apart or close together
    void long_scenario(Rng& r, Spec& s)
    {
        const std::string& p = s.profile;
        int                def = 0;
        for (int i = 0; i < 50; ++i)
        {
            def = p == "C08" ? pick(r, tokenizers) : p == "C07" ? pick(r, plain_regexes) : pick_def(r, 0.2);
            if (sim_defs[def]->q <= 2) break;
        }
        const Def& d = *sim_defs[def];
        Text       t;
        const int  m = static_cast<int>(r.below(6));
        if (m == 0) t.unit = a_sample(r, d);
        else if (m == 1) { t.pre = a_sample(r, d); t.unit = std::string(1, a_char(r, d)); t.suf = a_sample(r, d); }
        else if (m == 2) t.unit = a_sample(r, d) + std::string(1, a_char(r, d));
        else if (m == 3) t.unit = a_sample(r, d) + a_sample(r, d);
        else if (m == 4) t.unit = make_text(r, d, 40);
        else { t.pre = make_text(r, d, 20); t.unit = std::string(static_cast<size_t>(r.range(1, 30)), r.chance(0.5) ? a_char(r, d) : '~') + a_sample(r, d); t.suf = a_sample(r, d); }
        if (t.unit.empty()) t.unit = "a";
        const int x = static_cast<int>(r.below(10));
        s.grow      = x < 3 ? 300 : x < 5 ? 600 : x < 6 ? 1100 : x < 8 ? 5000 : x < 9 ? 17000 : 70000;
        if (p != "C01" && p != "C02" && p != "C03" && r.chance(0.03)) // up to a megabyte, with few matches far apart
        {
            const char c = r.chance(0.5) ? a_char(r, d) : '~';
            s.grow       = r.chance(0.5) ? 1100000 : 300000;
            if (m != 1) t.unit = std::string(static_cast<size_t>(r.chance(0.5) ? r.range(1000, 9000) : r.range(20000, 140000)), c) + a_sample(r, d);
        }
        t.count     = std::max<int64_t>(1, 64 / static_cast<int64_t>(t.unit.size()));
        s.texts[BIG_TEXT] = t;
        auto& v = s.thr;
        auto  ed = [&]() { return Op {EDIT, static_cast<int>(r.below(65536)), static_cast<unsigned char>(a_char(r, d)), BIG_TEXT, 0, ""}; };
        const int nthr = p == "C01" ? 2 : 1;
        for (int k = 0; k < nthr; ++k)
        {
            std::vector<Op> o {Op {NEW, 0, def, BIG_TEXT, static_cast<int>(r.below(5)), ""}};
            const int       n = r.range(2, 6);
            for (int i = 0; i < n; ++i)
            {
                const int y = static_cast<int>(r.below(12));
                if (y < 3) o.push_back(Op {ADVN, 0, r.chance(0.5) ? 400 : r.range(2, 300), 0, 0, ""});
                else if (y < 5) o.push_back(Op {ADV, 0, 0, 0, static_cast<int>(r.below(2)), ""});
                else if (y == 5) o.push_back(Op {COPY, 1, 0}), o.push_back(Op {ADVN, 1, r.range(1, 300), 0, 0, ""});
                else if (y == 6) o.push_back(Op {BEGIN, 1, 0}), o.push_back(Op {ADVN, 1, r.range(1, 300), 0, 0, ""});
                else if (y == 7) o.push_back(Op {RANGE, 0, def, BIG_TEXT, static_cast<int>(r.below(5)), ""});
                else if (y < 10 && (p == "C07" || p == "C08")) o.push_back(Op {RESUME, 1, 0, 0, 0, ""}), o.push_back(Op {ADVN, 1, r.range(1, 20), 0, 0, ""});
                else if (y < 11 && (p == "C05" || p == "C07" || p == "C09")) { o.push_back(ed()); if (p == "C09") o.push_back(Op {NEW, 0, def, BIG_TEXT, static_cast<int>(r.below(5)), ""}); }
                else o.push_back(Op {OBS, 0});
            }
            v.push_back(o);
        }
        if (p == "C02")
        {
            ScriptCfg c;
            c.ns = 2; c.len = r.range(2, 4); c.range = false;
            s.texts[0] = text_of(r, make_text(r, d, text_limit(d)));
            c.uses.emplace_back(def, 0);
            s.nested.push_back(make_script(r, c, s.texts));
        }
        if (p == "C03") neighbours(r, d, s.texts[BIG_TEXT], a_sample(r, d), a_sample(r, d));
    }

    // C11: results that several threads read, or that one thread hands to another. Between two barriers a shared
    // slot is read by all or belongs to one thread; threads end at barriers, their results do not.
    void sharing_scenario(Rng& r, Spec& s)
    {
        const int nthr = r.chance(0.08) ? r.range(6, MAXT) : r.range(2, 4), nphase = r.range(2, 6), nsh = r.range(1, NSHARE), own = nthr > 4 ? 2 : r.range(1, 4), ndef = r.range(1, 2);
        std::vector<std::pair<int, int>> uses;
        for (int i = 0; i < ndef; ++i)
        {
            const int  def = pick_def(r, 0.3);
            const Def& d   = *sim_defs[def];
            s.texts[i]     = text_of(r, make_text(r, d, std::min(40, text_limit(d))));
            if (d.q <= 2 && r.chance(0.06))
            {
                s.texts[i].unit  = a_sample(r, d) + a_char(r, d);
                s.texts[i].count = std::min<int64_t>(300, 600 / static_cast<int64_t>(s.texts[i].unit.size()));
            }
            uses.emplace_back(def, i);
            if (i > 0 && r.chance(0.3)) uses.emplace_back(uses[0].first, i);
        }
        struct S
        {
            bool live = false;
            int  use  = 0;
        };
        std::vector<S>                sh(static_cast<size_t>(nsh));
        std::vector<std::vector<S>>   mine(static_cast<size_t>(nthr), std::vector<S>(static_cast<size_t>(own)));
        std::vector<bool>             ended(static_cast<size_t>(nthr));
        s.thr.resize(static_cast<size_t>(nthr));
        for (int ph = 0; ph < nphase; ++ph)
        {
            std::vector<int> alive;
            for (int t = 0; t < nthr; ++t)
                if (!ended[static_cast<size_t>(t)]) alive.push_back(t);
            std::vector<int> owner(static_cast<size_t>(nsh), -1); // -1: everybody reads it
            bool             any = false;
            for (int i = 0; i < nsh; ++i)
            {
                if (!sh[static_cast<size_t>(i)].live || r.chance(0.35)) owner[static_cast<size_t>(i)] = pick(r, alive);
                any |= owner[static_cast<size_t>(i)] < 0;
            }
            const int  focus = static_cast<int>(r.below(static_cast<uint64_t>(nsh)));
            const bool crowd = any && r.chance(0.4); // everybody does the same
            std::vector<Op> same;
            for (int t: alive)
            {
                auto& v  = s.thr[static_cast<size_t>(t)];
                auto& my = mine[static_cast<size_t>(t)];
                if (crowd && !same.empty() && owner[static_cast<size_t>(focus)] < 0)
                {
                    for (auto& o: same)
                    {
                        v.push_back(o);
                        if (o.k != OBS && o.a < own) my[static_cast<size_t>(o.a)] = sh[static_cast<size_t>(focus)];
                    }
                }
                auto at = [&](int slot) -> S& { return slot < NSLOT ? my[static_cast<size_t>(slot)] : sh[static_cast<size_t>(slot - NSLOT)]; };
                for (int n = r.range(ph == 0 ? 2 : 1, 6); n > 0 && v.size() + 12 < SCRIPT_MAX; --n)
                {
                    // what this thread may write, and what it may read, during this phase
                    std::vector<int> wr, rd, sw;
                    for (int i = 0; i < own; ++i) wr.push_back(i);
                    for (int i = 0; i < nsh; ++i)
                        if (owner[static_cast<size_t>(i)] == t) wr.push_back(NSLOT + i), sw.push_back(NSLOT + i);
                    for (int i: wr)
                        if (at(i).live) rd.push_back(i);
                    for (int i = 0; i < nsh; ++i)
                        if (owner[static_cast<size_t>(i)] < 0 && at(NSLOT + i).live)
                            for (int k = 0; k < 3; ++k) rd.push_back(NSLOT + i);
                    const int d = !sw.empty() && r.chance(0.6) ? pick(r, sw) : pick(r, wr);
                    const bool can = owner[static_cast<size_t>(d < NSLOT ? 0 : d - NSLOT)] == t || d < NSLOT;
                    if (!can) continue;
                    const int x = static_cast<int>(r.below(20));
                    if (!at(d).live && (rd.empty() || x < 10 || (ph == 0 && d >= NSLOT)))
                    {
                        const size_t u = r.below(uses.size());
                        v.push_back(Op {NEW, d, uses[u].first, uses[u].second, static_cast<int>(r.below(5)), ""});
                        at(d) = S {true, static_cast<int>(u)};
                        continue;
                    }
                    if (rd.empty()) continue;
                    const int from = pick(r, rd);
                    const bool mut = from < NSLOT || owner[static_cast<size_t>(from - NSLOT)] == t; // may change what it reads
                    if (x < 6 && at(d).live) v.push_back(Op {ADV, d, 0, 0, static_cast<int>(r.below(2)), ""});
                    else if (x < 7 && at(d).live) v.push_back(Op {ADVN, d, r.range(2, 8), 0, 0, ""});
                    else if (x < 11) v.push_back(Op {OBS, from});
                    else if (x < 14 && d != from) v.push_back(Op {COPY, d, from}), at(d) = at(from);
                    else if (x < 15 && d != from) v.push_back(Op {BEGIN, d, from}), at(d) = at(from);
                    else if (x < 16 && d != from) v.push_back(Op {RESUME, d, from, 0, static_cast<int>(r.below(2)), ""}), at(d) = at(from);
                    else if (x < 17 && d != from && mut) v.push_back(Op {MOVE, d, from}), at(d) = at(from), at(from).live = false;
                    else if (x < 19 && at(d).live && uses[static_cast<size_t>(at(d).use)].first == uses[static_cast<size_t>(at(from).use)].first)
                    {
                        const bool mv = mut && d != from && r.chance(0.3);
                        v.push_back(Op {mv ? MASSIGN : ASSIGN, d, from});
                        at(d) = at(from);
                        if (mv) at(from).live = false;
                    }
                    else if (x == 19 && at(d).live && r.chance(0.3)) v.push_back(Op {DROP, d}), at(d).live = false;
                    else v.push_back(Op {OBS, from});
                }
                if (crowd && same.empty() && owner[static_cast<size_t>(focus)] < 0)
                {
                    for (int n = r.range(1, 4); n > 0; --n)
                    {
                        const int x = static_cast<int>(r.below(10)), d = static_cast<int>(r.below(static_cast<uint64_t>(own)));
                        same.push_back(x < 4 ? Op {OBS, NSLOT + focus} : x < 7 ? Op {COPY, d, NSLOT + focus} : x < 8 ? Op {BEGIN, d, NSLOT + focus} : x < 9 ? Op {RESUME, d, NSLOT + focus, 0, 0, ""} : Op {OBS, NSLOT + focus});
                    }
                    for (auto& o: same)
                    {
                        v.push_back(o);
                        if (o.k != OBS) my[static_cast<size_t>(o.a)] = sh[static_cast<size_t>(focus)];
                    }
                }
            }
            if (ph + 1 == nphase) break;
            size_t left = alive.size();
            for (int t: alive)
            {
                if (left > 1 && r.chance(0.25)) { ended[static_cast<size_t>(t)] = true; --left; }
                else s.thr[static_cast<size_t>(t)].push_back(Op {BARRIER});
            }
        }
        // in the end everything that may be read is read
        for (int t = 0; t < nthr; ++t)
            if (!ended[static_cast<size_t>(t)])
                for (int i = 0; i < own; ++i)
                    if (mine[static_cast<size_t>(t)][static_cast<size_t>(i)].live) s.thr[static_cast<size_t>(t)].push_back(Op {OBS, i});
        const bool more = r.chance(0.7);
        if (more)
        {
            int last = -1;
            for (int t = 0; t < nthr; ++t)
                if (!ended[static_cast<size_t>(t)])
                {
                    s.thr[static_cast<size_t>(t)].push_back(Op {BARRIER});
                    last = t;
                }
            for (int i = 0; i < nsh; ++i)
                if (sh[static_cast<size_t>(i)].live)
                    for (int t = 0; t < nthr; ++t)
                        if (!ended[static_cast<size_t>(t)] && (t == last || r.chance(0.5))) s.thr[static_cast<size_t>(t)].push_back(Op {OBS, NSLOT + i});
        }
    }

    // ---- scenarios ---------------------------------------------------------------------

    Spec scenario(const std::string& p, uint64_t seed, uint64_t no)
    {
        Rng  r(mix(mix(seed, no), 0xABCD0000 + static_cast<uint64_t>(p == "C11" ? 11 : p[2] - '0')));
        Spec s;
        s.profile = p;
        s.seed    = seed;
        s.run     = no;
        if (p != "C04" && p != "C10" && p != "C11" && r.chance(p == "C01" || p == "C02" ? 0.012 : 0.02))
        {
            long_scenario(r, s);
            return s;
        }
        if (p == "C11") sharing_scenario(r, s);
        else if (p == "C01" || p == "C02")
        {
            const int nthr  = p == "C01" ? (r.chance(0.07) ? r.range(6, MAXT) : r.range(2, 5)) : r.range(1, 3);
            const int ndef  = r.range(1, 3);
            std::vector<std::pair<int, int>> uses;
            for (int i = 0; i < ndef; ++i)
            {
                const int  def = pick_def(r, 0.25);
                const Def& d   = *sim_defs[def];
                s.texts[i]     = text_of(r, make_text(r, d, std::min(32, text_limit(d))));
                uses.emplace_back(def, i);
                if (r.chance(0.3) && i > 0) uses.emplace_back(def, i - 1); // several matchers over one text
                if (r.chance(0.3) && i > 0) uses.emplace_back(uses[0].first, i);
            }
            // a private text per thread, rewritten by its owner only
            for (int t = 0; t < nthr; ++t)
            {
                ScriptCfg c;
                c.ns   = r.range(1, 4);
                c.len  = r.range(3, p == "C01" ? 9 : 12);
                c.uses = uses;
                if (r.chance(0.3))
                {
                    s.texts[ndef + t % (NTEXT - 1 - ndef)] = text_of(r, make_text(r, *sim_defs[uses[0].first], 24));
                    if (t < NTEXT - 1 - ndef) c.uses.emplace_back(uses[0].first, ndef + t);
                }
                if (p == "C01" && t > 0 && r.chance(0.25)) { s.thr.push_back(s.thr[0]); continue; } // the same calls at the same time
                s.thr.push_back(make_script(r, c, s.texts));
            }
            if (p == "C02")
            {
                const int nn = r.range(1, 3);
                for (int i = 0; i < nn; ++i)
                {
                    ScriptCfg c;
                    c.ns = 2; c.len = r.range(2, 5); c.uses = uses;
                    s.nested.push_back(make_script(r, c, s.texts));
                }
            }
        }
        else if (p == "C03")
        {
            const int ndef = r.range(1, 2);
            ScriptCfg c;
            for (int i = 0; i < ndef; ++i)
            {
                const int   def = pick_def(r, 0.2);
                const Def&  d   = *sim_defs[def];
                std::string t   = make_text(r, d, text_limit(d)), cont = a_sample(r, d), before = a_sample(r, d);
                if (r.chance(0.6)) // the window ends inside something that would match
                {
                    const std::string a = a_sample(r, d);
                    const size_t      k = r.below(a.size() + 1);
                    t                   = (r.chance(0.4) ? "" : t.substr(0, t.size() / 2)) + a.substr(0, k);
                    cont                = a.substr(k) + cont;
                    if (static_cast<int>(t.size()) > text_limit(d)) t = a.substr(0, std::min<size_t>(k, static_cast<size_t>(text_limit(d))));
                }
                s.texts[i] = text_of(r, t);
                neighbours(r, d, s.texts[i], cont, before);
                c.uses.emplace_back(def, i);
            }
            c.ns = 2; c.len = r.range(2, 8); c.copies = r.chance(0.3); c.edits = r.chance(0.2);
            s.thr.push_back(make_script(r, c, s.texts));
        }
        else if (p == "C04")
        {
            ScriptCfg   c;
            const int   def = pick_def(r, 0.2);
            const Def&  d   = *sim_defs[def];
            const bool  big = r.chance(0.4);
            c.ns = 3; c.len = r.range(2, big ? 4 : 8);
            if (!big)
            {
                s.texts[0] = text_of(r, make_text(r, d, text_limit(d)));
                c.uses.emplace_back(def, 0);
                if (r.chance(0.4))
                {
                    const int e = pick_def(r, 0.2);
                    s.texts[1]  = text_of(r, make_text(r, *sim_defs[e], text_limit(*sim_defs[e])));
                    c.uses.emplace_back(e, 1);
                }
            }
            else
            {
                Text t;
                const int m = static_cast<int>(r.below(4));
                if (m == 0) t.unit = a_sample(r, d);
                else if (m == 1) t.unit = std::string(1, a_char(r, d));
                else if (m == 2) { t.pre = a_sample(r, d); t.unit = std::string(1, a_char(r, d)); }
                else { t.unit = a_sample(r, d) + std::string(1, a_char(r, d)); t.suf = a_sample(r, d); }
                if (t.unit.empty()) t.unit = "a";
                t.count       = static_cast<int64_t>(4000 / t.unit.size());
                s.texts[BIG_TEXT] = t;
                c.uses.emplace_back(def, BIG_TEXT);
                c.range = r.chance(0.3);
            }
            s.stack = 65536;
            s.thr.push_back(make_script(r, c, s.texts));
        }
        else if (p == "C05")
        {
            const int  nthr = r.chance(0.5) ? 1 : r.range(2, 4);
            const bool same = r.chance(0.5); // the same matcher everywhere
            int        def  = 0;
            for (int t = 0; t < nthr; ++t)
            {
                ScriptCfg  c;
                if (!same || t == 0) def = pick_def(r, 0.15);
                const Def& d   = *sim_defs[def];
                s.texts[t]     = text_of(r, r.chance(0.35) ? pumped_text(r, d, text_limit(d)) : make_text(r, d, text_limit(d)));
                c.uses.emplace_back(def, t);
                c.ns = 2; c.copies = r.chance(0.3); c.edits = r.chance(0.4); c.len = r.range(3, 14);
                if (r.chance(0.4)) // walk to the end
                {
                    std::vector<Op> v {Op {NEW, 0, def, t, static_cast<int>(r.below(5)), ""}};
                    const int       n = std::min<int>(static_cast<int>(s.texts[t].pre.size()) + 3, 40);
                    for (int i = 0; i < n; ++i)
                    {
                        v.push_back(Op {ADV, 0, 0, 0, static_cast<int>(r.below(2)), ""});
                        if (c.edits && !s.texts[t].pre.empty() && r.chance(0.3) && v.size() + 6 < SCRIPT_MAX)
                            v.push_back(Op {EDIT, static_cast<int>(r.below(s.texts[t].pre.size())), static_cast<unsigned char>(a_char(r, d)), t, 0, ""});
                        if (v.size() + 4 > SCRIPT_MAX) break;
                    }
                    s.thr.push_back(v);
                }
                else s.thr.push_back(make_script(r, c, s.texts));
            }
        }
        else if (p == "C06")
        {
            ScriptCfg c;
            const int ndef = r.range(1, 2), ntx = r.range(1, 3);
            std::vector<int> ds;
            for (int i = 0; i < ndef; ++i) ds.push_back(pick_def(r, 0.15));
            for (int i = 0; i < ntx; ++i)
            {
                const Def& d = *sim_defs[ds[static_cast<size_t>(i % ndef)]];
                s.texts[i]   = text_of(r, make_text(r, d, text_limit(d)));
                for (int k = 0; k < ndef; ++k)
                    if (static_cast<int>(s.texts[i].pre.size()) <= text_limit(*sim_defs[ds[static_cast<size_t>(k)]])) c.uses.emplace_back(ds[static_cast<size_t>(k)], i);
            }
            if (c.uses.empty()) { s.texts[0] = text_of(r, ""); c.uses.emplace_back(ds[0], 0); }
            c.ns = r.chance(0.08) ? NSLOT - 2 : r.range(2, 6); c.len = r.range(6, 30);
            if (c.ns > 6) c.len = r.range(30, SCRIPT_MAX - NSLOT);
            s.thr.push_back(make_script(r, c, s.texts));
        }
        else if (p == "C07")
        {
            const int       def = r.chance(0.9) ? pick(r, plain_regexes) : pick(r, regexes);
            const Def&      d   = *sim_defs[def];
            s.texts[0]          = text_of(r, make_text(r, d, text_limit(d)));
            std::vector<Op> v {Op {NEW, 0, def, 0, static_cast<int>(r.below(5)), ""}};
            const int       len  = r.range(3, 24);
            const bool      edit = r.chance(0.4);
            // slot 0 is the uninterrupted scan; 1 and 2 are searches begun on the rest of the text
            while (static_cast<int>(v.size()) < len)
            {
                const int x = static_cast<int>(r.below(10));
                if (x < 3) v.push_back(Op {ADV, 0, 0, 0, static_cast<int>(r.below(2)), ""});
                else if (x < 6) v.push_back(Op {RESUME, 1 + static_cast<int>(r.below(2)), static_cast<int>(r.below(3)), 0, r.chance(0.3) ? 1 : 0, ""});
                else if (x < 8) v.push_back(Op {ADV, 1 + static_cast<int>(r.below(2)), 0, 0, static_cast<int>(r.below(2)), ""});
                else if (x == 8 && edit) v.push_back(Op {EDIT, static_cast<int>(r.below(8)), static_cast<unsigned char>(a_char(r, d)), 0, 1 + static_cast<int>(r.below(2)), ""});
                else v.push_back(Op {ADV, 0, 0, 0, 0, ""});
                if (v.back().k == RESUME && v.back().a == v.back().b) v.back().b = 0;
            }
            s.thr.push_back(v);
        }
        else if (p == "C08")
        {
            ScriptCfg  c;
            const int  def = pick(r, tokenizers);
            const Def& d   = *sim_defs[def];
            const int  nt  = r.range(1, 2);
            for (int i = 0; i < nt; ++i)
            {
                s.texts[i] = text_of(r, make_text(r, d, text_limit(d)));
                c.uses.emplace_back(def, i);
            }
            if (r.chance(0.3) && tokenizers.size() > 1)
            {
                const int e = pick(r, tokenizers);
                s.texts[2]  = text_of(r, make_text(r, *sim_defs[e], text_limit(*sim_defs[e])));
                c.uses.emplace_back(e, 2);
            }
            c.ns = r.chance(0.05) ? NSLOT - 2 : r.range(1, 6); c.len = c.ns > 6 ? 36 : r.range(4, 24); c.resume = true; c.edits = r.chance(0.2);
            s.thr.push_back(make_script(r, c, s.texts));
        }
        else if (p == "C10")
        {
            const int nthr = r.chance(0.5) ? 1 : r.chance(0.7) ? r.range(2, 3) : r.range(4, 6), ndef = r.range(1, 2);
            std::vector<std::pair<int, int>> uses;
            for (int i = 0; i < ndef; ++i)
            {
                const int def = constant_regexes.empty() || (!constant_tokenizers.empty() && r.chance(0.2)) ? pick(r, constant_tokenizers) : pick(r, constant_regexes);
                s.texts[i]    = text_of(r, constant_text(r, def));
                uses.emplace_back(def, i);
                if (r.chance(0.3)) neighbours(r, *sim_defs[def], s.texts[i], a_sample(r, *sim_defs[def]), a_sample(r, *sim_defs[def]));
            }
            for (int t = 0; t < nthr; ++t)
            {
                const bool own = r.chance(0.5);
                const int  mine = ndef + t;
                const auto use  = uses[r.below(uses.size())];
                std::string now;
                if (own)
                {
                    now           = constant_text(r, use.first);
                    s.texts[mine] = text_of(r, now);
                    s.texts[mine].nullq = 0;
                }
                std::vector<Op> v;
                const int       parts = own ? r.range(1, 3) : 1;
                for (int part = 0; part < parts; ++part)
                {
                    if (part) // the buffer gets other contents, everything is begun anew
                    {
                        std::string n = constant_text(r, use.first);
                        for (int i = 0; i < 3 && n.size() != now.size() && r.chance(0.5); ++i) n = constant_text(r, use.first);
                        now = n;
                        v.push_back(Op {FILL, 0, 0, mine, 0, n});
                    }
                    ScriptCfg c;
                    c.ns   = r.range(1, 5);
                    c.len  = r.range(2, 16 / parts + 4);
                    c.uses = uses;
                    if (own)
                        for (int i = 0; i < 2; ++i) c.uses.emplace_back(use.first, mine);
                    for (auto& o: make_script(r, c, s.texts))
                    {
                        if (r.chance(0.06)) v.push_back(Op {AMBIENT, static_cast<int>(r.below(65536))});
                        if (o.k == NEW && r.chance(0.1)) o = Op {BURST, o.a, o.b, o.c, r.chance(0.1) && s.texts[o.c].pre.size() < 1000 ? 300 : r.range(2, 12), ""};
                        v.push_back(o);
                    }
                }
                if (v.size() > SCRIPT_MAX - 2) v.resize(SCRIPT_MAX - 2);
                s.thr.push_back(v);
            }
            if (r.chance(0.4))
                for (int i = r.range(1, 2); i > 0; --i)
                {
                    ScriptCfg c;
                    c.ns = 2; c.len = r.range(2, 5); c.uses = uses;
                    s.nested.push_back(make_script(r, c, s.texts));
                }
            if (r.chance(0.25)) s.stack = 65536;
        }
        else // C09
        {
            std::vector<Op>  v;
            const int        ndef = r.range(1, 4), ntx = r.range(1, 2);
            std::vector<int> ds;
            for (int i = 0; i < ndef; ++i) ds.push_back(pick_def(r, 0.25));
            int lim = 64;
            for (int d: ds) lim = std::min(lim, text_limit(*sim_defs[d]));
            std::string now[2];
            for (int i = 0; i < ntx; ++i)
            {
                now[i]     = make_text(r, *sim_defs[pick(r, ds)], lim);
                s.texts[i] = text_of(r, now[i]);
                s.texts[i].nullq = 0;
            }
            const int len = r.range(5, 20);
            bool      live[3] = {};
            int       def[3] = {}, txt[3] = {};
            while (static_cast<int>(v.size()) < len)
            {
                const int x = static_cast<int>(r.below(12)), sl = static_cast<int>(r.below(3)), t = static_cast<int>(r.below(static_cast<uint64_t>(ntx)));
                if (x < 3 || !live[sl])
                {
                    def[sl] = pick(r, ds); txt[sl] = t; live[sl] = true;
                    v.push_back(Op {NEW, sl, def[sl], t, static_cast<int>(r.below(5)), ""});
                }
                else if (x < 5) v.push_back(Op {ADV, sl, 0, 0, static_cast<int>(r.below(2)), ""});
                else if (x == 5 && r.chance(0.3)) { def[sl] = pick(r, ds); txt[sl] = t; v.push_back(Op {BURST, sl, def[sl], t, r.chance(0.01) && sim_defs[def[sl]]->q == 0 && now[t].size() < 12 ? 66000 : r.chance(0.1) ? 300 : r.range(2, 12), ""}); }
                else if (x == 5) v.push_back(Op {ADVN, sl, r.range(2, 30), 0, 0, ""});
                else if (x == 6) v.push_back(Op {RANGE, 0, pick(r, ds), t, static_cast<int>(r.below(5)), ""});
                else if (x == 7) v.push_back(Op {AMBIENT, static_cast<int>(r.below(65536))});
                else if (x == 8 || x == 9)
                {
                    // the buffer is used for something else: same size (same address) or not
                    std::string n = make_text(r, *sim_defs[pick(r, ds)], lim);
                    if (r.chance(0.6)) n.resize(now[t].size(), a_char(r, *sim_defs[ds[0]]));
                    v.push_back(Op {FILL, 0, 0, t, 0, n});
                    if (n.size() != now[t].size())
                        for (int k = 0; k < 3; ++k)
                            if (txt[k] == t) live[k] = false;
                    now[t] = n;
                    if (r.chance(0.7)) // search it again, as before the rewrite
                    {
                        for (int k = 0; k < 3; ++k)
                            if (def[k] && txt[k] == t && r.chance(0.5)) { v.push_back(Op {NEW, k, def[k], t, static_cast<int>(r.below(5)), ""}); live[k] = true; }
                    }
                }
                else if (x == 10 && !now[t].empty())
                    v.push_back(Op {EDIT, static_cast<int>(r.below(now[t].size())), static_cast<unsigned char>(a_char(r, *sim_defs[pick(r, ds)])), t, 0, ""});
                else v.push_back(Op {OBS, sl});
            }
            if (v.size() > SCRIPT_MAX - 2) v.resize(SCRIPT_MAX - 2);
            s.thr.push_back(v);
        }
        return s;
    }

    int64_t steps_at(const Run& dry, int t, int op) { return t < MAXT && op < MAXOP ? dry.opsteps[t][op] : 0; }

    // One variant: the scenario with a schedule and faults. dry is the scenario run undisturbed.
    Spec variant(const Spec& base, const Run& dry, uint64_t no, int k)
    {
        Spec s = base;
        Rng  r(mix(mix(base.seed, no * 64 + static_cast<uint64_t>(k)), 0xFA017 + static_cast<uint64_t>(base.profile == "C11" ? 11 : base.profile[2])));
        const std::string& p = s.profile;
        const int nthr = static_cast<int>(s.thr.size());
        const double at_hot = p == "C05" ? 0.6 : 0.3;
        auto place = [&](int kind, int64_t arg) {
            // inside a call: a point chosen uniformly over the steps the call takes, or one of its accesses to shared memory
            Fault f {kind, static_cast<int>(r.below(static_cast<uint64_t>(nthr))), 0, 0, arg};
            const auto& sc = s.thr[static_cast<size_t>(f.tid)];
            std::vector<int> calls;
            for (size_t i = 0; i < sc.size() && i < MAXOP; ++i)
                if (steps_at(dry, f.tid, static_cast<int>(i)) > 0 && (kind != F_ABANDON || arg == 0 || sc[i].k == NEW || sc[i].k == RANGE)) calls.push_back(static_cast<int>(i));
            if (calls.empty()) return;
            f.op = calls[r.below(calls.size())];
            const int64_t n = steps_at(dry, f.tid, f.op);
            if (dry.hot > 0 && r.chance(at_hot)) f.step = -1 - static_cast<int64_t>(r.below(6));
            else if (r.chance(0.1)) f.step = 1 + static_cast<int64_t>(r.below(8));
            else if (r.chance(0.1)) f.step = n - static_cast<int64_t>(r.below(static_cast<uint64_t>(std::min<int64_t>(n, 8))));
            else f.step = 1 + static_cast<int64_t>(r.below(static_cast<uint64_t>(n)));
            if (kind == F_ABANDON && arg) f.arg = std::min<int64_t>(f.arg, 1 + 2000000 / n);
            s.faults.push_back(f);
        };
        s.gen         = true;
        s.policy.seed = r.next();
        s.first       = static_cast<int>(r.below(static_cast<uint64_t>(nthr)));
        if (nthr > 1)
        {
            const int64_t total = static_cast<int64_t>(dry.steps) + 1;
            const int     x     = static_cast<int>(r.below(10));
            const double often  = std::min(0.3, 2500.0 / static_cast<double>(dry.hot + 1)); // of the accesses to shared memory
            s.policy.hot        = r.chance(0.5) ? often : 0;
            if (x < 6)
            {
                s.policy.kind = 1;
                const int64_t want = 2 + static_cast<int64_t>(r.below(60)); // about this many switches
                s.policy.mean = static_cast<double>(std::max<int64_t>(2, total / want));
                if (r.chance(0.1)) s.policy.mean = static_cast<double>(r.range(2, 6));
                if (total / s.policy.mean > 3000) s.policy.mean = static_cast<double>(total) / 3000.0;
            }
            else if (x < 9) { s.policy.kind = 2; s.policy.points = r.range(1, 12); s.policy.horizon = static_cast<uint64_t>(total); }
            else { s.policy.kind = 0; s.policy.hot = often; }
        }
        if (p == "C02")
        {
            const int n = r.range(1, 5);
            for (int i = 0; i < n; ++i)
            {
                const int x = static_cast<int>(r.below(10));
                if (x < 5) place(F_INTERRUPT, static_cast<int64_t>(r.below(s.nested.size())));
                const bool deep = x < 5 && r.chance(0.06);
                if (x < 5 && (deep || r.chance(0.4))) // the handler is interrupted too, or leaves
                    for (int lvl = 1; lvl < MAXDEPTH && (deep || lvl == 1 || (lvl == 2 && r.chance(0.4))); ++lvl)
                    {
                        if (deep) // handlers within handlers, all of them inside a call
                        {
                            const int tid = s.faults.empty() ? 0 : s.faults.back().tid;
                            s.faults.push_back(Fault {F_INTERRUPT, tid, 0, dry.hot > 0 && r.chance(0.5) ? -1 - static_cast<int64_t>(r.below(3)) : 1 + static_cast<int64_t>(r.below(60)), static_cast<int64_t>(r.below(s.nested.size())), lvl});
                            continue;
                        }
                        Fault f {r.chance(0.8) ? F_INTERRUPT : F_ABANDON, s.faults.empty() ? 0 : s.faults.back().tid, static_cast<int>(r.below(4)), 1 + static_cast<int64_t>(r.below(r.chance(0.3) ? 10 : r.chance(0.5) ? 100 : 1000)),
                                 static_cast<int64_t>(r.below(s.nested.size())), lvl};
                        if (dry.hot > 0 && r.chance(0.5)) f.step = -1 - static_cast<int64_t>(r.below(4));
                        s.faults.push_back(f);
                    }
                if (x < 5) continue;
                static const int times[] = {1, 2, 4, 8, 16, 20, 40, 70, 140, 300};
                if (x < 8) place(F_ABANDON, r.chance(0.2) ? times[r.below(10)] : 0);
                else place(F_KILL, 0);
            }
        }
        else if (p == "C11")
        {
            if (k > 0 && r.chance(0.25)) place(F_ABANDON, 0);
            if (k > 0 && r.chance(0.1)) place(F_KILL, 0);
            if (r.chance(0.2)) s.ambient0 = static_cast<int>(r.below(65536));
        }
        else if (p == "C03")
        {
            for (int i = r.range(0, 3); i > 0; --i) place(F_NEIGH, r.range(1, 200));
            for (auto& [i, t]: s.texts)
                if (k > 0) t.place = static_cast<int>(r.below(4));
        }
        else if (p == "C04")
        {
            const int x = static_cast<int>(r.below(4));
            if (x < 2)
                for (size_t i = 0; i < s.thr[0].size(); ++i) s.faults.push_back(Fault {F_ALLOC, 0, static_cast<int>(i), 0, -1});
            else if (x == 2)
                for (int i = r.range(1, 3); i > 0; --i) s.faults.push_back(Fault {F_ALLOC, 0, static_cast<int>(r.below(s.thr[0].size())), 0, r.range(1, 4)});
        }
        else if (p == "C05")
        {
            if (nthr > 1)
                for (int i = r.range(1, nthr - 1); i > 0; --i) place(F_KILL, 0);
        }
        else if (p == "C06" || p == "C08")
        {
            if (k > 0)
                for (int i = r.range(1, 3); i > 0; --i) place(F_ABANDON, 0);
        }
        else if (p == "C07")
        {
            if (k > 0 && r.chance(0.5)) place(F_ABANDON, 0);
        }
        else if (p == "C10")
        {
            for (int i = r.range(0, 3); i > 0; --i)
            {
                const int x = static_cast<int>(r.below(10));
                if (x < 4 && !s.nested.empty())
                {
                    place(F_INTERRUPT, static_cast<int64_t>(r.below(s.nested.size())));
                    if (r.chance(0.2) && !s.faults.empty())
                        s.faults.push_back(Fault {r.chance(0.7) ? F_INTERRUPT : F_ABANDON, s.faults.back().tid, static_cast<int>(r.below(3)), 1 + static_cast<int64_t>(r.below(200)), static_cast<int64_t>(r.below(s.nested.size())), 1});
                }
                else if (x < 6) place(F_ABANDON, r.chance(0.1) ? r.range(1, 70) : 0);
                else if (x < 7 && nthr > 1) place(F_KILL, 0);
                else if (x < 9) place(F_NEIGH, r.range(1, 200));
                else for (size_t o = 0; o < s.thr[0].size(); ++o) s.faults.push_back(Fault {F_ALLOC, 0, static_cast<int>(o), 0, -1});
            }
            if (k > 0) s.ambient0 = static_cast<int>(r.below(65536));
            for (auto& [i, t]: s.texts) t.place = static_cast<int>(r.below(4));
            if (nthr == 1 && s.nested.empty() && r.chance(0.25))
            {
                s.gen   = false;
                s.phase = r.chance(0.6) ? 1 : 2;
            }
        }
        else if (p == "C09")
        {
            s.gen      = false;
            s.ambient0 = k == 0 ? 0 : static_cast<int>(r.below(65536));
            for (auto& [i, t]: s.texts) t.place = static_cast<int>(r.below(4));
            const int x = s.grow ? 9 : static_cast<int>(r.below(10));
            s.phase     = x < 2 ? 1 : x < 3 ? 2 : 0;
        }
        return s;
    }

    int variants_of(const std::string& p)
    {
        if (p == "C01" || p == "C02") return 12;
        if (p == "C03") return 4;
        if (p == "C04") return 3;
        if (p == "C05") return 3;
        if (p == "C06" || p == "C08") return 4;
        if (p == "C07") return 2;
        if (p == "C10") return 5;
        if (p == "C11") return 8;
        return 4;
    }
} // namespace
