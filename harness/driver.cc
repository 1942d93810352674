// Wishbone slave + interrupt + reset driver for a cxxrtl build of the core.
//
// It knows nothing about RISC-V: it answers the n-th read with the n-th word
// of the stimulus (or from a memory image), asserts irq/rst on a schedule, and
// writes down what it saw on the pins as JSON for TLC.
//
// stdin: segments (see harness/stim.py), stdout: JSON array of segments.
#include DUT_HEADER
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <algorithm>

template <size_t N> static uint64_t rd(const cxxrtl::value<N> &v) { return N <= 32 ? (uint64_t)v.data[0] : ((uint64_t)v.data[0] | ((uint64_t)v.data[N > 32 ? 1 : 0] << 32)); }
template <size_t N> static uint64_t rd(const cxxrtl::wire<N> &v) { return rd(v.curr); }
template <size_t N> static void wr(cxxrtl::value<N> &v, uint64_t x) { v.data[0] = (uint32_t)x & (N >= 32 ? 0xffffffffu : ((1u << (N % 32)) - 1)); }
template <size_t N> static void wr(cxxrtl::wire<N> &v, uint64_t x) { wr(v.next, x); v.curr = v.next; }

struct Rng { uint64_t s; uint32_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (uint32_t)(s >> 16); } };
struct IrqRule { long txn, phase, off; int lvl; }; // phase 0: after ack, 1: after start
struct RstRule { long txn, off, len, word, ntxn; }; // then resume at word, next transfer number ntxn

static bool need(long &x) { return scanf("%ld", &x) == 1; }
static bool first_ev, cycle_mode;
static FILE *out;

int main(int argc, char **argv)
{
    out = stdout;
    static char obuf[1 << 20];
    setvbuf(out, obuf, _IOFBF, sizeof obuf);
    fprintf(out, "[");
    bool first_seg = true;
    char tag[8];
    while (scanf("%7s", tag) == 1) {
        if (strcmp(tag, "SEG")) { fprintf(stderr, "bad tag %s\n", tag); return 3; }
        // seed maxgap maxtxn record waitmode waitmax ackidle irq0 mode memwords nwords nirq nrst
        long seed, maxgap, maxtxn, record, waitmode, waitmax, ackidle, irq0, mode, nwords, nirq, nrst, memwords;
        if (!(need(seed) && need(maxgap) && need(maxtxn) && need(record) && need(waitmode) && need(waitmax)
              && need(ackidle) && need(irq0) && need(mode) && need(memwords) && need(nwords) && need(nirq) && need(nrst)))
        { fprintf(stderr, "short header\n"); return 3; }
        std::vector<uint32_t> words(nwords);
        for (auto &w : words) { unsigned x; if (scanf("%x", &x) != 1) return 3; w = x; }
        std::vector<IrqRule> irqs(nirq);
        for (auto &r : irqs) { long l; if (!(need(r.txn) && need(r.phase) && need(r.off) && need(l))) return 3; r.lvl = l; }
        std::stable_sort(irqs.begin(), irqs.end(), [](const IrqRule &a, const IrqRule &b) { return a.txn < b.txn; });
        std::vector<RstRule> rsts(nrst);
        for (auto &r : rsts) if (!(need(r.txn) && need(r.off) && need(r.len) && need(r.word) && need(r.ntxn))) return 3;
        cycle_mode = record & 2;
        std::vector<uint32_t> mem;
        if (mode == 1) { mem.assign(memwords, 0); for (size_t i = 0; i < words.size() && i < mem.size(); i++) mem[i] = words[i]; }

        Rng rng{(uint64_t)seed * 0x9E3779B97F4A7C15ull + 0x1234567ull};
        for (int i = 0; i < 8; i++) rng.next();
        cxxrtl_design::p_top top;

        if (!first_seg) fprintf(out, ",\n");
        first_seg = false;
        fprintf(out, "[");
        first_ev = true;

        long nxt = 0;            // next word
        long txn = -1;           // current / last transaction number
        bool in_txn = false, done = false;
        long wait_left = 0, wait_cnt = 0, gap = 0, since_start = -1;
        uint64_t s_adr = 0, s_sel = 0, s_we = 0, s_dw = 0; bool stable = true;
        int irq = irq0;
        int ext_irq = -1; long ext_cnt = -1;
        // irq pending actions
        struct Act { long cyc; int lvl; };
        std::vector<Act> acts;
        struct RAct { long cyc, len, word, ntxn; };
        std::vector<RAct> racts;
        long rst_left = 2;       // power-on: two reset cycles, then run
        bool rst_report = false; long res_word = 0, res_txn = 0;
        // pending event awaiting its irq window
        bool have_ev = false; long ev[9]; int imin = 1, imax = 0, d1 = 0, d2 = 0; long ev_age = 0; int rmin = 1, rmax = 0; (void)rmin; (void)rmax;
        auto arm = [&](long t, long ph, long cyc) { auto it = std::lower_bound(irqs.begin(), irqs.end(), t, [](const IrqRule &a, long v) { return a.txn < v; });
            for (; it != irqs.end() && it->txn == t; ++it) if (it->phase == ph) acts.push_back({cyc + std::max(it->off, 1L), it->lvl}); };
        auto emit_raw = [&](const std::string &s) { if (!first_ev) fputc(',', out); first_ev = false; fputs(s.c_str(), out); };
        auto emit = [&](long k, uint32_t a, long sel, uint32_t d, long g, long w, long st, int i1, int i2, int im, int ix) {
            char b[200];
            snprintf(b, sizeof b, "[%ld,%u,%u,%ld,%u,%u,%ld,%ld,%ld,%d,%d,%d,%d]", k, a >> 16, a & 0xffff, sel, d >> 16, d & 0xffff, g, w, st, i1, i2, im, ix);
            emit_raw(b);
        };
        auto flush = [&]() {
            if (!have_ev) return;
            have_ev = false;
            if (record & 1) emit(ev[0], (uint32_t)ev[1], ev[2], (uint32_t)ev[3], ev[4], ev[5], ev[6], ev_age >= 1 ? d1 : irq, ev_age >= 2 ? d2 : irq, ev_age >= 3 ? imin : irq, ev_age >= 3 ? imax : irq);
        };
        // DAT_R outside an acknowledged read: noise, a bus that keeps its last
        // value (nearly), a slave that is early or answers somebody else
        uint32_t last = 0;
        auto garbage = [&]() -> uint32_t {
            static const uint32_t special[] = { 0, 0xffffffffu, 0x73, 0x100073, 0x30200073, 0x10500073, 0x0ff0000f, 0x13, 0xfff00093,
                0x34051573, 0x30529073, 0xf1101073, 0x12301073, 0x00002003, 0x00102023, 0x0000006f, 0x00008067, 0x00000063, 0x000000b7,
                0x40005033, 0x80000000u, 0x7fffffff };
            if (record & 8) return last;     // a quiet bus
            uint32_t r = rng.next(), q = rng.next();
            switch (r & 7) {
                case 0: case 1: return q;
                case 2: return special[q % (sizeof special / sizeof *special)];
                case 3: return last;
                case 4: return last ^ (1u << (q & 31));
                case 5: return (size_t)nxt < words.size() ? words[nxt] : q;
                default: return words.empty() ? q : words[q % words.size()];
            }
        };
        arm(-1, 0, 1);
        long hang = 0;
        uint32_t cyc32 = 0; (void)cyc32;
        for (long cyc = 0; !done; cyc++) {
            for (auto &a : acts) if (a.cyc == cyc) irq = a.lvl;
            if (ext_cnt >= 0 && ext_cnt-- == 0) irq = ext_irq;
            for (auto &r : racts) if (r.cyc == cyc) { rst_left = std::max(rst_left, r.len); rst_report = true; res_word = r.word; res_txn = r.ntxn; }
            bool rst = rst_left > 0;
            wr(top.p_rst, rst); wr(top.p_irq, irq);
            bool idle_ack = ackidle == 2 ? true : ackidle == 1 ? (rng.next() & 1) : false;
            uint32_t junk = garbage();
            wr(top.p_bus____ack, 0); wr(top.p_bus____dat__r, junk);
            wr(top.p_clk, 0); top.step();
            bool cy = rd(top.p_bus____cyc), sb = rd(top.p_bus____stb);
            bool req = cy && sb && !rst;
            bool ack = false; uint32_t dr = junk;
            if (rst) {
                if (in_txn) in_txn = false;
                gap = 0; hang = 0;
            } else if (req) {
                uint64_t adr = rd(top.p_bus____adr) & 0x3fffffff, sel = rd(top.p_bus____sel), we = rd(top.p_bus____we), dw = rd(top.p_bus____dat__w);
                if (!in_txn) {
                    // the window of the previous event closed with the last cycle
                    flush();
                    in_txn = true; txn++; since_start = 0; hang = 0;
                    arm(txn, 1, cyc);
                    for (auto &r : rsts) if (r.txn == txn) racts.push_back({cyc + r.off, r.len, r.word, r.ntxn});
                    for (auto &r : racts) if (r.cyc == cyc) { rst_left = std::max(rst_left, r.len); rst_report = true; res_word = r.word; res_txn = r.ntxn; }
                    s_adr = adr; s_sel = sel; s_we = we; s_dw = dw; stable = true;
                    // 0 fixed, 1 uniform, 2 mostly one and sometimes uniform,
                    // 3 uniform in the number of digits
                    wait_left = waitmode == 0 ? waitmax : waitmode == 1 ? 1 + (long)(rng.next() % waitmax)
                              : waitmode == 3 ? 1 + (long)(rng.next() % (waitmax >> (rng.next() % (64 - __builtin_clzl(waitmax)))))
                              : (rng.next() % 8 == 0 ? 1 + (long)(rng.next() % waitmax) : 1);
                    wait_cnt = 0;
                    if (rst_left > 0) { // reset exactly at the start of the transaction
                        rst = true; wr(top.p_rst, 1); in_txn = false;
                    }
                }
                if (!rst) {
                    if (adr != s_adr || sel != s_sel || we != s_we || (we && dw != s_dw)) stable = false;
                    if (!we && mode == 0 && nxt >= (long)words.size()) {
                        if (record & 1) emit(9, (uint32_t)(adr << 2), sel, 0, gap, 0, 1, irq, irq, irq, irq);
                        done = true;
                    } else if (wait_left == 0) {
                        ack = true;
                        if (!we) last = dr = mode == 0 ? words[nxt++] : mem[adr % mem.size()];
                    } else { wait_left--; wait_cnt++; }
                }
            } else {
                ack = !in_txn && idle_ack;
                if (in_txn) { // dropped before ack: report as an unstable, unfinished transaction
                    if (record & 1) emit(7, (uint32_t)(s_adr << 2), s_sel, (uint32_t)s_dw, gap, wait_cnt, 0, irq, irq, irq, irq);
                    in_txn = false; done = true;
                }
                gap++; hang++;
            }
            wr(top.p_bus____ack, ack); wr(top.p_bus____dat__r, dr); wr(top.p_rst, rst);
            top.step();
            if (cycle_mode) {
                uint32_t adr = (uint32_t)(rd(top.p_bus____adr) << 2), dw = rd(top.p_bus____dat__w);
                char b[200];
                snprintf(b, sizeof b, "[%d,%d,%d,%d,%u,%u,%d,%u,%u,%d]", (int)rst, (int)rd(top.p_bus____cyc), (int)rd(top.p_bus____stb),
                         (int)rd(top.p_bus____we), adr >> 16, adr & 0xffff, (int)rd(top.p_bus____sel), dw >> 16, dw & 0xffff, (int)ack);
                emit_raw(b);
            }
#ifdef RVFI
            if ((record & 4) && !rst && rd(top.p_rvfi____valid)) {
#define H(x) (unsigned)(rd(top.p_rvfi____##x) >> 16), (unsigned)(rd(top.p_rvfi____##x) & 0xffff)
#define B(x) (unsigned)rd(top.p_rvfi____##x)
#define C(n) (unsigned)(rd(top.p_rvfi____csr____##n##____rdata) >> 16), (unsigned)(rd(top.p_rvfi____csr____##n##____rdata) & 0xffff)
#define W(n) (unsigned)(rd(top.p_rvfi____csr____##n##____wdata) >> 16), (unsigned)(rd(top.p_rvfi____csr____##n##____wdata) & 0xffff)
#define ONES(n) (rd(top.p_rvfi____csr____##n##____rmask) == 0xffffffffu && rd(top.p_rvfi____csr____##n##____wmask) == 0xffffffffu)
#define ZERO(n) (rd(top.p_rvfi____csr____##n##____rdata) == 0 && (rd(top.p_rvfi____csr____##n##____rmask) & 0xffffffffu) == 0xffffffffu)
#include "rvfi_fields.inc"
            }
            // levels of the interrupt line since the last report
            rmin = std::min(rmin, (int)irq); rmax = std::max(rmax, (int)irq);
#endif
            if (have_ev) { // levels seen in the clocks after the ack
                ev_age++;
                if (ev_age == 1) d1 = irq;
                if (ev_age == 2) d2 = irq;
                // a CSR instruction is executing once its two decode clocks are over
                if (ev_age >= 3) { imin = std::min(imin, irq); imax = std::max(imax, irq); }
            }
            if (ack && in_txn && !rst) {
                flush();
                uint32_t d = s_we ? (uint32_t)rd(top.p_bus____dat__w) : dr;
                uint64_t adr = rd(top.p_bus____adr) & 0x3fffffff;
                ev[0] = s_we ? 1 : 0; ev[1] = (long)(uint32_t)(adr << 2); ev[2] = rd(top.p_bus____sel); ev[3] = d;
                ev[4] = gap; ev[5] = wait_cnt; ev[6] = stable;
                have_ev = true; imin = 1; imax = 0; ev_age = 0;
                in_txn = false; gap = 0; hang = 0;
                arm(txn, 0, cyc);
                if (mode == 1 && s_we) {
                    uint32_t &m = mem[adr % mem.size()], mask = 0;
                    for (int i = 0; i < 4; i++) if (ev[2] >> i & 1) mask |= 0xffu << (8 * i);
                    // word 0x3ffffff (byte 0x0ffffffc): stop; 0x3fffffe: irq
                    // control: low byte = delay, bit 8 = level
                    if (adr == 0x3ffffff) done = true;
                    else if (adr == 0x3fffffe) { ext_cnt = d & 0xff; ext_irq = (d >> 8) & 1; }
                    else m = (m & ~mask) | (d & mask);
                }
                if (txn + 1 >= maxtxn) done = true;
            }
            if (rst && rst_left > 0) {
                rst_left--;
                if (rst_left == 0 && rst_report) {
                    flush();
                    if (record & 1) emit(2, 0, 0, 0, 0, 0, 1, irq, irq, irq, irq);
                    rst_report = false;
                    if (mode == 0) nxt = res_word;
                    txn = res_txn - 1;
                    racts.clear(); acts.clear();
                    arm(txn, 0, cyc);
                    gap = 0; hang = 0;
                }
                if (rst_report && have_ev) flush();
            }
            if (hang > maxgap) {
                flush();
                if (record & 1) emit(8, 0, 0, 0, gap, 0, 1, irq, irq, irq, irq);
                done = true;
            }
            if (wait_cnt > 10000000) { fprintf(stderr, "wait overflow\n"); return 3; }
            wr(top.p_clk, 1); top.step();
        }
        flush();
        fprintf(out, "]");
    }
    fprintf(out, "]\n");
    fflush(out);
    return ferror(out) ? 3 : 0;
}
