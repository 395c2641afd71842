// Shared between the instrumented glue (which instantiates the library) and the
// uninstrumented simulator. Plain data only.
#ifndef SIM_API_HPP
#define SIM_API_HPP
#include <cstddef>
#include <cstdint>

namespace sim
{
    constexpr unsigned MAXG = 36; // captures recorded per match
    constexpr size_t   LITERAL_MAX = 48; // texts below this length are also passed as string literals

    // What a caller can see of a match result / token iterator, through raw pointers.
    struct Obs
    {
        uint8_t     accepted;
        uint8_t     agree; // every accessor gave the same answer
        uint8_t     ng;
        int         type; // token class, -1 for matches
        const char* mb;
        size_t      ml;
        const char* gb[MAXG];
        size_t      gl[MAXG];
    };

    struct View
    {
        const char* b;
        size_t      l;
    };

    struct Def
    {
        const char*        text;     // the pattern, or the tokenizer's definition list
        int                kind;     // 0 regex, 1 tokenizer
        size_t             size;     // of the cursor object
        unsigned           groups;
        int                anchored; // starts with ^ (a suffix search is not equivalent)
        int                q;        // repetition depth: bounds text sizes and step budgets
        const char*        alphabet; // bytes to build texts from
        const char* const* samples;  // strings derived from the pattern, null-terminated list
        const unsigned*    sample_len;

        void (*construct)(void* at, const char* b, const char* e, int how); // how: 0-3, or 4 if a null byte follows
        int (*advance)(void* at, int how);
        void (*copy)(void* dst, const void* src);
        void (*move)(void* dst, void* src);
        void (*assign)(void* dst, const void* src);
        void (*massign)(void* dst, void* src);
        void (*begin)(void* dst, const void* src);
        int (*not_end)(const void* at);
        void (*observe)(const void* at, Obs*);
        void (*destroy)(void* at);
        // a real range-based for; stops after cap elements; returns how many
        size_t (*range)(const char* b, const char* e, int how, View* out, size_t cap);

        // tokenizers only: the separate anchored regexes, the executable reference's parts
        int ntok, nsep;
        long (*tok_len)(int i, const char* b, const char* e); // -1: no match at b
        long (*sep_len)(int i, const char* b, const char* e);
        const int* tok_type;
    };

    struct Ct // a scan the compiler evaluated: [matches, complete, agree, then per match begin, end, class, captures]
    {
        const char* text;
        unsigned    len;
        const int*  v;
    };
} // namespace sim
#endif
