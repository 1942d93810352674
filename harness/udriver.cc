// Clock-level driver for a cxxrtl build of the core, with the microcode ROM
// replaced by the words of the segment (-DROM=member) where possible.
//
// stdin: segments  "SEG seed nclk ack_percent irq_permille rst_permille rom(0/1)
//                   nfirst words... npool words... [256 ROM words]"
// After a reset the first reads are answered with the `first` words in order,
// every other value on DAT_R comes from the pool (mostly).
// stdout: JSON, one array of clocks per segment:
//   [rst, irq, ack, datH, datL, cyc, stb, we, adrH, adrL, sel, dwH, dwL]
#include DUT_HEADER
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <vector>

template <size_t N> static uint64_t rd(const cxxrtl::value<N> &v) { return N <= 32 ? (uint64_t)v.data[0] : ((uint64_t)v.data[0] | ((uint64_t)v.data[N > 32 ? 1 : 0] << 32)); }
template <size_t N> static uint64_t rd(const cxxrtl::wire<N> &v) { return rd(v.curr); }
template <size_t N> static void wr(cxxrtl::value<N> &v, uint64_t x) { v.data[0] = (uint32_t)x & (N >= 32 ? 0xffffffffu : ((1u << (N % 32)) - 1)); }
template <size_t N> static void wr(cxxrtl::wire<N> &v, uint64_t x) { wr(v.next, x); v.curr = v.next; }

struct Rng { uint64_t s; uint32_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (uint32_t)(s >> 16); } };

static long num() { long x; if (scanf("%ld", &x) != 1) { fprintf(stderr, "short input\n"); exit(3); } return x; }
static std::vector<uint64_t> hexes(long n)
{
    std::vector<uint64_t> v(n);
    for (auto &w : v) { unsigned long long x; if (scanf("%llx", &x) != 1) { fprintf(stderr, "short input\n"); exit(3); } w = x; }
    return v;
}

int main()
{
    static char obuf[1 << 20];
    setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
    printf("[");
    bool first_seg = true;
    char tag[8];
    while (scanf("%7s", tag) == 1) {
        long seed = num(), nclk = num(), ackp = num(), irqp = num(), rstp = num(), rom = num();
        auto first = hexes(num()), pool = hexes(num());
        std::vector<uint64_t> image;
        if (rom) image = hexes(256);
        Rng rng{(uint64_t)seed * 0x9E3779B97F4A7C15ull + 0x1234567ull};
        for (int i = 0; i < 8; i++) rng.next();
        cxxrtl_design::p_top top;
#ifdef ROM
        for (size_t i = 0; i < image.size(); i++) {
            top.ROM.data[i].data[0] = (uint32_t)image[i];
            top.ROM.data[i].data[1] = (uint32_t)(image[i] >> 32);
        }
#endif
        printf(first_seg ? "[" : ",\n[");
        first_seg = false;
        size_t reads = 0;
        int irq = 0, last_ack = 0;
        long rst_left = 2;          // power-on reset, not recorded
        bool recording = false;
        for (long cyc = 0; cyc < nclk; ) {
            bool rst = rst_left > 0;
            if (!rst && recording && (long)(rng.next() % 1000) < rstp) { rst = true; rst_left = 1 + rng.next() % 3; }
            if (rst_left > 0) rst_left--;
            if ((long)(rng.next() % 1000) < irqp) irq ^= 1;
            uint32_t d;
            switch (rng.next() % 16) {
                case 1: d = rng.next() & 1 ? 0x00000013u : 0xffffffffu; break;
                default: d = pool.empty() ? rng.next() : (uint32_t)pool[rng.next() % pool.size()];
            }
            wr(top.p_rst, rst); wr(top.p_irq, irq);
            wr(top.p_bus____ack, 0); wr(top.p_bus____dat__r, d);
            wr(top.p_clk, 0); top.step();
            int ack = 0;
            bool req = rd(top.p_bus____cyc) && rd(top.p_bus____stb);
            if (req && !rst && !last_ack && (long)(rng.next() % 100) < ackp) {
                ack = 1;
                if (!rd(top.p_bus____we)) { if (reads < first.size()) d = (uint32_t)first[reads]; reads++; }
            }
            if (rst) reads = 0;
            last_ack = ack;
            wr(top.p_bus____ack, ack); wr(top.p_bus____dat__r, d);
            top.step();
            if (recording) {
                uint32_t adr = (uint32_t)(rd(top.p_bus____adr) << 2), dw = (uint32_t)rd(top.p_bus____dat__w);
                printf("%s[%d,%d,%d,%u,%u,%d,%d,%d,%u,%u,%d,%u,%u]", cyc ? "," : "", (int)rst, irq, ack, d >> 16, d & 0xffff,
                       (int)rd(top.p_bus____cyc), (int)rd(top.p_bus____stb), (int)rd(top.p_bus____we), adr >> 16, adr & 0xffff,
                       (int)rd(top.p_bus____sel), dw >> 16, dw & 0xffff);
                cyc++;
            } else if (rst_left == 0) recording = true;
            wr(top.p_clk, 1); top.step();
        }
        printf("]");
    }
    printf("]\n");
    fflush(stdout);
    return ferror(stdout) ? 3 : 0;
}
