// Generator of permutations.
#ifndef PERM_H
#define PERM_H

#include "gen.h"

namespace gen {

inline std::vector<uint64_t> gen_perm(pbt::Case & c, uint64_t n)
{
    static const char * names[] = {"identity", "swap", "reversal", "rotation", "random", "within groups", "interleaving", "shift of a range"};
    std::vector<uint64_t> p(n);
    for (uint64_t i = 0; i < n; i++) p[i] = i;
    if (n < 2) return p;
    unsigned k = c.draw(8);
    c.desc("permutation of %lu: %s; ", (unsigned long) n, names[k]);
    c.label(names[k]);
    switch (k) {
        case 0: break;
        case 1: std::swap(p[c.draw(n)], p[c.draw(n)]); break;
        case 2: std::reverse(p.begin(), p.end()); break;
        case 3: std::rotate(p.begin(), p.begin() + c.draw(n), p.end()); break;
        case 4: { pbt::Rng g(c.seed()); for (uint64_t i = n - 1; i > 0; i--) std::swap(p[i], p[g.below(i + 1)]); break; }
        case 5: {
            uint64_t s = 2 + c.draw(80);
            pbt::Rng g(c.seed());
            for (uint64_t b = 0; b < n; b += s)
                for (uint64_t i = std::min(n, b + s) - 1; i > b; i--) std::swap(p[i], p[b + g.below(i - b + 1)]);
            break;
        }
        case 6: {
            uint64_t s = 2 + c.draw(9), q = 0;
            for (uint64_t b = 0; b < s; b++) for (uint64_t i = b; i < n; i += s) p[q++] = i;
            break;
        }
        default: {
            uint64_t a = c.draw(n), b = c.draw(n);
            if (a > b) std::swap(a, b);
            std::rotate(p.begin() + a, p.begin() + a + (b - a) / 2, p.begin() + b + 1);
            break;
        }
    }
    return p;
}

} // namespace gen

#endif
