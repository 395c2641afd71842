// What the compiler computes: complete scans evaluated in constant expressions, as flat tables.
// These units are compiled without instrumentation and contribute data only.
#ifndef SIM_CT_HPP
#define SIM_CT_HPP
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>

#include <e_regex.hpp>

#include "api.hpp"

namespace sim
{
    template<size_t N>
    struct CtTable
    {
        int v[N];
    };

    constexpr bool ct_same(std::string_view a, std::string_view b)
    {
        return a.size() == b.size() && (a.size() == 0 || a.data() == b.data());
    }

    template<typename M, unsigned... I>
    constexpr bool ct_gets(const M& x, std::integer_sequence<unsigned, I...>)
    {
        return (... && (ct_same(x.template get<I>(), x.get_group(I)) && ct_same(std::get<I>(x), x.get_group(I))));
    }

    // [matches, complete, accessors agree, then per match: begin, end, class, captures]
    template<e_regex::static_string P, unsigned CAP, size_t N>
    consteval auto ct_regex(const char (&text)[N])
    {
        using R                   = e_regex::regex<P>;
        constexpr unsigned groups = static_cast<unsigned>(R::groups), kept = groups < MAXG ? groups : MAXG, per = 3 + 2 * kept;
        CtTable<3 + (CAP + 1) * per> o {};
        bool                         ok = true;
        const std::string_view       query {text, N - 1};
        auto                         m = R::match(query);
        unsigned                     n = 0;
        for (;; ++n)
        {
            int*                   w    = o.v + 3 + n * per;
            const std::string_view view = m.to_view();
            const auto             copy = m;
            ok = ok && static_cast<bool>(m) == m.is_accepted() && (m != m.end()) == m.is_accepted() && ct_same(*m, view) && ct_same(m.get_group(0), view) && ct_same(m[0], view) && ct_same(copy.to_view(), view)
                 && copy.is_accepted() == m.is_accepted();
            w[0] = w[1] = w[2] = -1;
            if (view.data() != nullptr) w[0] = static_cast<int>(view.data() - text), w[1] = w[0] + static_cast<int>(view.size());
            for (unsigned i = 0; i < kept; ++i)
            {
                const std::string_view g = m.get_group(i + 1);
                w[3 + 2 * i] = w[4 + 2 * i] = -1;
                if (g.data() != nullptr) w[3 + 2 * i] = static_cast<int>(g.data() - text), w[4 + 2 * i] = w[3 + 2 * i] + static_cast<int>(g.size());
                ok = ok && ct_same(g, m[i + 1]) && ct_same(g, copy[i + 1]);
            }
            if constexpr (requires { R::ast::groups; }) ok = ok && ct_gets(m, std::make_integer_sequence<unsigned, groups + 1> {});
            if (!m.is_accepted() || n == CAP) break;
            const bool more = m.next();
            ok              = ok && more == m.is_accepted();
        }
        // the same as a loop, through the call operator, from the literal itself and from copies
        constexpr R matcher {};
        auto        again = matcher(text), other = matcher(std::string_view {});
        for (unsigned i = 0; i <= n && i < 4; ++i)
        {
            const int* w = o.v + 3 + i * per;
            other        = again;
            auto       moved = std::move(again);
            const auto first = other.begin();
            const std::string_view view = moved.to_view();
            ok = ok && !(moved != other) && moved.is_accepted() == (w[0] >= 0) && ct_same(view, other.to_view())
                 && (w[0] < 0 || (view.data() - text == w[0] && static_cast<int>(view.size()) == w[1] - w[0]))
                 && first.is_accepted() == (o.v[3] >= 0) && (o.v[3] < 0 || (first.to_view().data() - text == o.v[3] && static_cast<int>(first.to_view().size()) == o.v[4] - o.v[3]));
            for (unsigned k = 0; k < kept; ++k)
            {
                const std::string_view g = moved.get_group(k + 1);
                ok = ok && ct_same(g, other.get_group(k + 1)) && (g.data() == nullptr) == (w[3 + 2 * k] < 0) && (g.data() == nullptr || (g.data() - text == w[3 + 2 * k] && static_cast<int>(g.size()) == w[4 + 2 * k] - w[3 + 2 * k]));
            }
            again = std::move(moved);
            ++again;
        }
        unsigned    k = 0;
        for (auto v: matcher(query))
        {
            if (k == CAP) break;
            const int* w = o.v + 3 + k * per;
            ok           = ok && k < n && w[0] == v.data() - text && w[1] - w[0] == static_cast<int>(v.size());
            ++k;
        }
        o.v[0] = static_cast<int>(n);
        o.v[1] = m.is_accepted() ? 0 : 1;
        o.v[2] = ok && k == n ? 1 : 0;
        return o;
    }

    template<auto& T, unsigned CAP, size_t N>
    consteval auto ct_tokens(const char (&text)[N])
    {
        CtTable<3 + (CAP + 1) * 3> o {};
        bool                       ok = true;
        const std::string_view     query {text, N - 1};
        auto                       m = T(query);
        unsigned                   n = 0;
        for (;; ++n)
        {
            int* w = o.v + 3 + n * 3;
            w[0] = w[1] = w[2] = -1;
            const bool more    = static_cast<bool>(m);
            ok                 = ok && (m != m.end()) == more && (m == m.end()) != more;
            if (more)
            {
                const auto             copy = m;
                const auto             t    = *m;
                const std::string_view v    = t.value;
                w[0]                        = static_cast<int>(v.data() - text);
                w[1]                        = w[0] + static_cast<int>(v.size());
                w[2]                        = static_cast<int>(t.type);
                ok = ok && ct_same(m->value, v) && m->type == t.type && ct_same((*copy).value, v);
            }
            if (!more || n == CAP) break;
            ++m;
        }
        auto again = T(text), other = T(std::string_view {});
        for (unsigned i = 0; i <= n && i < 4; ++i)
        {
            const int* w = o.v + 3 + i * 3;
            other        = again;
            auto       moved = std::move(again);
            const auto first = moved.begin();
            ok = ok && moved == other && static_cast<bool>(moved) == (w[0] >= 0) && static_cast<bool>(first) == (o.v[3] >= 0);
            if (w[0] >= 0)
            {
                const std::string_view v = moved->value, u = first->value;
                ok = ok && v.data() - text == w[0] && static_cast<int>(v.size()) == w[1] - w[0] && static_cast<int>(moved->type) == w[2] && u.data() - text == o.v[3] && static_cast<int>(u.size()) == o.v[4] - o.v[3];
            }
            again = std::move(moved);
            ++again;
        }
        unsigned k = 0;
        for (auto t: std::remove_cvref_t<decltype(T)>::match(query))
        {
            if (k == CAP) break;
            const int*             w = o.v + 3 + k * 3;
            const std::string_view v = t.value;
            ok                       = ok && k < n && w[0] == v.data() - text && w[1] - w[0] == static_cast<int>(v.size());
            ++k;
        }
        o.v[0] = static_cast<int>(n);
        o.v[1] = static_cast<bool>(m) ? 0 : 1;
        o.v[2] = ok && k == n ? 1 : 0;
        return o;
    }
} // namespace sim
#endif
