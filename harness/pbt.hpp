// Small property-based-testing engine: choice tapes, forked workers, shrinking, replay.
// A case is a byte tape.  Generators draw from the tape; in generation mode the bytes come from a
// counter-based PRNG keyed by (VERIF_SEED, property, phase, case index) and are recorded, in replay
// mode they are read back (zero beyond the end).  Every random choice of a property goes through
// the tape, so a failure is reproduced and shrunk from the tape alone.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace pbt {

inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0x12345) {
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
    return mix64(h ^ n);
}

struct SharedTape {           // lives in shared memory: survives a crashing worker
    volatile uint32_t len;
    uint8_t bytes[1 << 18];
};

class Tape {
  public:
    // generation
    Tape(uint64_t seed, SharedTape* sh, const uint8_t* prefix, size_t npre)
        : gen_(true), state_(seed), sh_(sh), pre_(prefix), npre_(npre) { if (sh_) sh_->len = 0; }
    // replay
    Tape(const uint8_t* d, size_t n) : gen_(false), state_(0), sh_(nullptr), data_(d), n_(n) {}

    uint8_t byte() {
        uint8_t v = 0;
        if (gen_) {
            if (pos_ < npre_) v = pre_[pos_];
            else {
                if (have_ == 0) { buf_ = mix64(state_++ * 0xd1342543de82ef95ull + 0x632be59bd9b4e019ull); have_ = 8; }
                v = (uint8_t)buf_; buf_ >>= 8; have_--;
            }
            if (sh_ && pos_ < sizeof(sh_->bytes)) { sh_->bytes[pos_] = v; sh_->len = (uint32_t)pos_ + 1; }
        } else if (pos_ < n_) v = data_[pos_];
        pos_++;
        return v;
    }
    uint64_t raw(int nb) { uint64_t v = 0; for (int i = 0; i < nb; i++) v |= (uint64_t)byte() << (8 * i); return v; }
    uint32_t below(uint32_t n) {
        if (n <= 1) return 0;
        if (n <= 256) return byte() % n;
        if (n <= 65536) return (uint32_t)(raw(2) % n);
        return (uint32_t)(raw(5) % n);
    }
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return (int)below(den) >= den - num; }  // zero byte -> false
    uint32_t u32() { return (uint32_t)raw(4); }
    double unit() { return (double)raw(3) / 16777216.0; }            // [0,1)
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    size_t pos() const { return pos_; }
    bool exhausted() const { return !gen_ && pos_ >= n_; }
  private:
    bool gen_; uint64_t state_; SharedTape* sh_ = nullptr;
    const uint8_t* pre_ = nullptr; size_t npre_ = 0;
    const uint8_t* data_ = nullptr; size_t n_ = 0;
    size_t pos_ = 0; uint64_t buf_ = 0; int have_ = 0;
};

struct Failure { std::string msg; };

struct Stats {
    uint64_t cases = 0, evals = 0, nontrivial = 0;
    std::map<std::string, uint64_t> cls;
    std::vector<std::string> samples;
};

struct Case {
    Tape& t;
    Stats* st;
    uint64_t index = 0;       // case number inside the phase (only for information)
    bool thorough = false;
    bool verbose = false;
    bool nt = false;
    uint64_t key = 0;         // identity of the case for distinct counting (0: tape hash)
    std::string sample_;
    const char* prop = "";
    explicit Case(Tape& tp, Stats* s) : t(tp), st(s) {}
    void nontrivial() { nt = true; }
    void eval(uint64_t n = 1) { if (st) st->evals += n; }
    void cls(const char* l, uint64_t n = 1) { if (st) st->cls[l] += n; }
    void feature(uint64_t h);  // something new to look for in a coverage-guided run
    bool want_sample() const { return st && st->samples.size() < 3; }
    void sample(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (!st && !verbose) return;
        if (st && st->samples.size() >= 3) return;
        char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        sample_ = b;
    }
    // A finding listed in the known-findings file (and inside its recorded bounds) is reported, not failed.
    void known(const char* key, bool within, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        char b[4000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        throw Failure{b};
    }
};

struct Phase {
    const char* name;
    std::function<void(Case&)> fn;
    uint64_t n_quick, n_thorough;
    bool enumerated = false;   // tape is prefixed with the 8-byte case number; not shrunk
};

struct Property {
    const char* id;
    const char* rule;          // when a case counts as non-trivial
    std::vector<Phase> phases;
    std::vector<std::string> assumptions;
    const char* exhaustive = nullptr;   // description of what an enumerated phase covers completely
};

int run_main(Property& p, int argc, char** argv);

}  // namespace pbt
