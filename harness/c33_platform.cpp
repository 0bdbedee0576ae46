// The platform's own code path of the vector types: products of one vector with many, for every length and alignment.
#include "lib.h"
using namespace cmmcore;
#if !defined(__x86_64__)
#error "to be compiled with the platform's own code path"
#endif
void mc_explore(mc::Ctx& c) {
    const int N = c.thorough ? 33 : 17;
    for (int n = 0; n <= N; n++) for (int al = 0; al < 4; al++) {
        if (!c.next("%d vectors at offset %d", n, al)) continue;
        c.guard([&] {
            std::vector<double> x(n + al), y(n + al), z(n + al);
            for (int k = 0; k < 125; k++) for (double sc : {1., 0.1, 1e150, 1e-160}) {
                vec3 v((k % 5 - 2) * sc, (k / 5 % 5 - 2) * sc, (k / 25 - 2) * sc);
                for (int i = 0; i < n; i++) { x[al + i] = (i * 7 + k) % 11 - 5.25; y[al + i] = (i * 5 + k * 3) % 13 - 6.125; z[al + i] = (i * 3 + k * 2) % 7 - 3; }
                std::vector<double> r(n + al + 3, -77.5); Vectors3 w{(size_t)n, x.data() + al, y.data() + al, z.data() + al};
                c.at("dot_product", n, al); c.trans(); c.state(mc::mix(mc::mix(n, al), mc::mix(k, mc::hd(sc))));
                dot_product(v, w, r.data() + al);
                for (int i = 0; i < n; i++) { double e = v.x * x[al + i] + v.y * y[al + i] + v.z * z[al + i], m = std::fabs(v.x * x[al + i]) + std::fabs(v.y * y[al + i]) + std::fabs(v.z * z[al + i]);
                    if (!(std::fabs(r[al + i] - e) <= 1e-15 * m)) { c.fail("product", "%d vectors: product %d of (%g,%g,%g) and (%g,%g,%g) is %.17g, expected %.17g", n, i, v.x, v.y, v.z, x[al + i], y[al + i], z[al + i], r[al + i], e); return; } }
                for (int i = 0; i < al; i++) if (r[i] != -77.5) { c.fail("before", "%d vectors: the place before the results is written", n); return; }
                for (int i = n + al; i < n + al + 3; i++) if (r[i] != -77.5) { c.fail("beyond", "%d vectors: the place %d after the results is written", n, i - n - al); return; }
            }
            c.tag("products");
        });
    }
}
