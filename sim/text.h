// Reference codecs and helpers for the text and codec worlds.
#pragma once
#include "core.h"

// ------------------------------------------------------------- buffers ----
// A caller's read-only input of exactly n bytes.
struct Input {
    char *p;
    size_t n;
    Input(const std::string &s, bool nul)
    {
        n = s.size() + (nul ? 1 : 0);
        p = (char *) caller_alloc(n, SH_RO);
        if (!s.empty())
            memcpy(p, s.data(), s.size());
        if (nul)
            p[s.size()] = 0;
        keep = std::string(p, n);
    }
    ~Input() { caller_free(p); }
    void unchanged(const char *site) const
    {
        if (memcmp(p, keep.data(), n))
            fail("mem", "write-to-readonly-argument", "%s changed its input",
                 site);
    }
    std::string keep;
    Input(const Input &) = delete;
};
// An output area of exactly n bytes.
struct Output {
    char *p;
    size_t n;
    explicit Output(size_t n) : n(n) { p = (char *) caller_alloc(n, SH_RW); }
    ~Output() { caller_free(p); }
    Output(const Output &) = delete;
};

// ---------------------------------------------------------------- UTF-8 ---
// Length of the well-formed sequence at s within n bytes, or 0 (RFC 3629).
int ref_utf8(const char *s, size_t n, int *cp);
std::string ref_utf8_encode(int cp);
bool ref_utf8_valid(const std::string &s);
std::string ref_sanitize(const std::string &s);

// --------------------------------------------------------------- Base64 ---
enum RefVerdict { REF_OK, REF_REFUSE, REF_ANY };
std::string ref_b64_encode(const std::string &s, char p62, char p63);
RefVerdict ref_b64_decode(const std::string &s, char p62, char p63, bool wsp,
                          std::string *out);

// ------------------------------------------------------------------ URL ---
bool ref_url_decode(const std::string &s, bool plus, std::string *out);
// Encoding of a byte by the default encoder; false when unspecified.
bool ref_url_byte(u8 b, std::string *out);

// ------------------------------------------------------------ transport ---
// The text as it arrives: damaged as planned, carried in chunks through a
// byte array fed by a faulty stream.
std::string deliver(const std::string &sent, const Op &op, bool *intact);
void gen_damage(Op &o, Rng &r, const char *specials, size_t nspecials);

std::string rand_text(Rng &r, int style, size_t n);
std::string rand_unicode(Rng &r, size_t maxcp, bool damage);
int rand_codepoint(Rng &r);
std::string rand_hostname(Rng &r);
std::string unicode_for(Rng &r);
enum { LONG_TEXT = 6000 }; // one text in so many is very long
void lengthen(std::string &s, size_t n); // text for the normalizers

// -------------------------------------------------------- library calls ---
// One self-contained use of a text, codec or number function; the transcript
// is everything a caller can observe in it, free of addresses.
enum { STR_KINDS = 32 };
std::string text_call(int kind, const Op &op);
Op gen_text_call(Rng &r);
World *make_codec_world(Plan &p);
World *make_alloc_world(Plan &p);
World *make_race_world(Plan &p, int phase);
void gen_codec(Plan &p, Rng &r);
void gen_alloc(Plan &p, Rng &r);
void gen_race(Plan &p, Rng &r);
