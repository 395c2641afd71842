// Instantiates the real library (from /repo/src) behind the Def interface. Translation units
// that include this are compiled with memory-access and basic-block instrumentation.
#ifndef SIM_GLUE_HPP
#define SIM_GLUE_HPP
#include <new>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>

#include <e_regex.hpp>

#include "api.hpp"

namespace sim
{
    inline std::string_view sv_of(const char* b, const char* e)
    {
        return b ? std::string_view {b, static_cast<size_t>(e - b)} : std::string_view {};
    }

    inline bool same(std::string_view a, std::string_view b)
    {
        return a.size() == b.size() && (a.size() == 0 || a.data() == b.data());
    }

    // The n bytes at b and the null byte after them, as the string literal a caller wrote
    inline e_regex::literal_string_view<> literal(const char* b, size_t n)
    {
        e_regex::literal_string_view<> v;
        [&]<size_t... I>(std::index_sequence<I...>) {
            (void) (... || (n == I && (v = e_regex::literal_string_view<>(*reinterpret_cast<const char(*)[I + 1]>(b)), true)));
        }(std::make_index_sequence<LITERAL_MAX> {});
        return v;
    }

    template<e_regex::static_string P>
    struct Rx
    {
        using R = e_regex::regex<P>;
        using M = std::remove_cvref_t<decltype(R::match(std::declval<std::string_view>()))>;

        // One matcher object shared by all callers, as in `constexpr e_regex::regex<...> matcher;`
        inline static constexpr R shared {};

        static constexpr unsigned groups = static_cast<unsigned>(R::groups);

        // through a matcher that is gone before the result is looked at
        static __attribute__((noinline)) void short_lived(void* at, const char* b, const char* e)
        {
            const R local {};
            new (at) M(local(sv_of(b, e)));
        }
        static void construct(void* at, const char* b, const char* e, int how)
        {
            switch (how)
            {
                case 0: new (at) M(shared(sv_of(b, e))); break;
                case 1: new (at) M(R::match(sv_of(b, e))); break;
                case 2: short_lived(at, b, e); break;
                case 4: new (at) M(shared(literal(b, static_cast<size_t>(e - b)))); break;
                default: new (at) M(shared(e_regex::literal_string_view<> {b, e}));
            }
        }
        static M&       m(void* p) { return *static_cast<M*>(p); }
        static const M& m(const void* p) { return *static_cast<const M*>(p); }

        static int advance(void* at, int how)
        {
            if (how & 1)
            {
                ++m(at);
                return m(at).is_accepted() ? 1 : 0;
            }
            return m(at).next() ? 1 : 0;
        }
        static void copy(void* d, const void* s) { new (d) M(m(s)); }
        static void move(void* d, void* s) { new (d) M(std::move(m(s))); }
        static void assign(void* d, const void* s) { m(d) = m(s); }
        static void massign(void* d, void* s) { m(d) = std::move(m(s)); }
        static void begin(void* d, const void* s) { new (d) M(m(s).begin()); }
        static int  not_end(const void* s) { return m(s) != m(s).end() ? 1 : 0; }
        static void destroy(void* s) { m(s).~M(); }

        template<unsigned... I>
        static bool gets(const M& x, std::integer_sequence<unsigned, I...>)
        {
            return (... && (same(x.template get<I>(), x.get_group(I)) && same(std::get<I>(x), x.get_group(I))));
        }

        static void observe(const void* s, Obs* o)
        {
            const M&               x    = m(s);
            const std::string_view view = x.to_view();
            o->type                     = -1;
            o->accepted                 = x.is_accepted() ? 1 : 0;
            o->mb                       = view.data();
            o->ml                       = view.size();
            bool ok = (static_cast<bool>(x) == static_cast<bool>(o->accepted)) && !(x != x) && same(*x, view)
                      && same(x.get_group(0), view) && same(x[0], view);
            const e_regex::literal_string_view<char> l = x;
            ok = ok && same(std::string_view {l}, view);
            o->ng = groups < MAXG ? groups : MAXG;
            for (unsigned i = 0; i < o->ng; ++i)
            {
                const std::string_view g = x.get_group(i + 1);
                o->gb[i]                 = g.data();
                o->gl[i]                 = g.size();
                ok                       = ok && same(g, x[i + 1]);
            }
            if constexpr (requires { R::ast::groups; })
                ok = ok && gets(x, std::make_integer_sequence<unsigned, groups + 1> {});
            o->agree = ok ? 1 : 0;
        }

        static size_t range(const char* b, const char* e, int how, View* out, size_t cap)
        {
            size_t n = 0;
            if (how & 2)
            {
                for (auto v: R {}(sv_of(b, e)))
                {
                    if (n == cap) return n + 1;
                    out[n].b = v.data();
                    out[n].l = v.size();
                    ++n;
                }
            }
            else if (how & 1)
            {
                for (auto v: R::match(sv_of(b, e)))
                {
                    if (n == cap) return n + 1;
                    out[n].b = v.data();
                    out[n].l = v.size();
                    ++n;
                }
            }
            else
            {
                for (auto v: shared(sv_of(b, e)))
                {
                    if (n == cap) return n + 1;
                    out[n].b = v.data();
                    out[n].l = v.size();
                    ++n;
                }
            }
            return n;
        }
    };

    template<e_regex::static_string P>
    constexpr Def rx_def(const char* text, int anchored, int q, const char* alphabet, const char* const* samples, const unsigned* sl)
    {
        using X = Rx<P>;
        return Def {text, 0, sizeof(typename X::M), X::groups, anchored, q, alphabet, samples, sl,
                    &X::construct, &X::advance, &X::copy, &X::move, &X::assign, &X::massign, &X::begin,
                    &X::not_end, &X::observe, &X::destroy, &X::range, 0, 0, nullptr, nullptr, nullptr};
    }

    template<e_regex::static_string... P>
    struct Parts
    {
        template<e_regex::static_string Q>
        static long one(const char* b, const char* e)
        {
            auto m = e_regex::regex<Q>::match(sv_of(b, e));
            if (!m.is_accepted()) return -1;
            auto v = m.to_view();
            return v.data() == b ? static_cast<long>(v.size()) : -1;
        }
        static long len(int i, const char* b, const char* e)
        {
            long r = -1;
            int  k = 0;
            ((k++ == i ? (void) (r = one<P>(b, e)) : (void) 0), ...);
            return r;
        }
        static constexpr int n = sizeof...(P);
    };

    template<auto& T, typename Toks, typename Seps>
    struct Tk
    {
        using I = std::remove_cvref_t<decltype(T(std::declval<std::string_view>()))>;
        static I&       m(void* p) { return *static_cast<I*>(p); }
        static const I& m(const void* p) { return *static_cast<const I*>(p); }

        static __attribute__((noinline)) void short_lived(void* at, const char* b, const char* e)
        {
            const auto local = T;
            new (at) I(local(sv_of(b, e)));
        }
        static void construct(void* at, const char* b, const char* e, int how)
        {
            switch (how)
            {
                case 0: new (at) I(T(sv_of(b, e))); break;
                case 1: new (at) I(std::remove_cvref_t<decltype(T)>::match(sv_of(b, e))); break;
                case 2: short_lived(at, b, e); break;
                case 4: new (at) I(T(literal(b, static_cast<size_t>(e - b)))); break;
                default: new (at) I(e_regex::literal_string_view<> {b, e});
            }
        }
        static int advance(void* at, int)
        {
            ++m(at);
            return static_cast<bool>(m(at)) ? 1 : 0;
        }
        static void copy(void* d, const void* s) { new (d) I(m(s)); }
        static void move(void* d, void* s) { new (d) I(std::move(m(s))); }
        static void assign(void* d, const void* s) { m(d) = m(s); }
        static void massign(void* d, void* s) { m(d) = std::move(m(s)); }
        static void begin(void* d, const void* s) { new (d) I(m(s).begin()); }
        static int  not_end(const void* s) { return m(s) != m(s).end() ? 1 : 0; }
        static void destroy(void* s) { m(s).~I(); }
        static void observe(const void* s, Obs* o)
        {
            const I& x                  = m(s);
            o->accepted                 = static_cast<bool>(x) ? 1 : 0;
            const auto             t    = *x;
            const std::string_view view = t.value;
            o->mb                       = view.data();
            o->ml                       = view.size();
            o->ng                       = 0;
            // the class of "no token" is not a value anyone may rely on
            o->type  = o->accepted ? static_cast<int>(t.type) : -1;
            const I copy = x;
            o->agree = same(std::string_view {x->value}, view) && x == copy && !(copy != x)
                               && (!o->accepted || x->type == t.type)
                               && ((x == x.end()) != static_cast<bool>(o->accepted))
                           ? 1
                           : 0;
        }
        static size_t range(const char* b, const char* e, int, View* out, size_t cap)
        {
            size_t n = 0;
            auto   r = T(sv_of(b, e));
            for (auto t: r)
            {
                if (n == cap) return n + 1;
                const std::string_view v = t.value;
                out[n].b                 = v.data();
                out[n].l                 = v.size();
                ++n;
            }
            return n;
        }
    };

    template<auto& T, typename Toks, typename Seps>
    constexpr Def tk_def(const char* text, int q, const char* alphabet, const char* const* samples, const unsigned* sl, const int* types)
    {
        using X = Tk<T, Toks, Seps>;
        return Def {text, 1, sizeof(typename X::I), 0, 0, q, alphabet, samples, sl,
                    &X::construct, &X::advance, &X::copy, &X::move, &X::assign, &X::massign, &X::begin,
                    &X::not_end, &X::observe, &X::destroy, &X::range,
                    Toks::n, Seps::n, &Toks::len, &Seps::len, types};
    }
} // namespace sim
#endif
