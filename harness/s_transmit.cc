// C22: transmitted waveforms and windows agree with their formulas.
#include <seq.h>
#include <usml/transmit/transmit.h>
#include <usml/types/types.h>

#include <cmath>
#include <complex>
#include <vector>

using namespace usml::transmit;
typedef std::complex<double> cd;
typedef window::type W;
static const W types[] = {W::BOXCAR, W::HANN, W::HAMMING, W::KAISER};
static const char* names[] = {"boxcar", "hann", "hamming", "kaiser"};

// modified Bessel function of order zero from its power series
static long double I0(long double x) { long double t = 1, s = 1; for (int k = 1; k < 200; ++k) { t *= (x / (2 * k)) * (x / (2 * k)); s += t; } return s; }
static double shade(W w, size_t n, size_t N, double beta) {
    if (w == W::BOXCAR || N == 1) return 1;
    double a = 2 * M_PI * n / (N - 1), M = (N - 1) / 2.0, y = (n - M) / M;
    if (w == W::HANN) { double s = std::sin(a / 2); return s * s; }
    if (w == W::HAMMING) return 0.54 - 0.46 * std::cos(a);
    return (double)(I0(beta * std::sqrt(std::max(0.0, 1 - y * y))) / I0(beta));
}

SEQ_SECTION(shading, "windows", "every window, 1 to 40 points, every shape factor in the lattice") {
    for (int w = 0; w < 4; ++w) for (size_t N = 1; N <= 40; ++N) for (double beta : {0.0, 0.5, 2.0, 8.6}) {
        if (w != 3 && beta != 0.5) continue;
        if (!seq::next("%s of %zu points shape %g", names[w], N, beta)) continue;
        vector<double> a = window::any(types[w], N, beta);
        vector<double> b = w == 0 ? window::boxcar(N) : w == 1 ? window::hann(N) : w == 2 ? window::hamming(N) : window::kaiser(N, beta);
        seq::check(a.size() == N && b.size() == N, "number of points");
        for (size_t n = 0; n < N; ++n) {
            double want = shade(types[w], n, N, beta);
            seq::check(seq::near(a(n), want, 1e-9, 1e-9), "point %zu is %.9g instead of %.9g", n, a(n), want);
            seq::check(seq::near(b(n), a(n), 1e-12, 0), "window by type differs from window by name");
            seq::check(seq::near(a(n), a(N - 1 - n), 1e-9, 1e-9), "window is not symmetric");
            seq::evaluated();
        }
        seq::observe("%.9g", a(N / 3));
    }
}

struct pulse { double dur, fc, bw; };
SEQ_SECTION(waves, "waveforms", "every pulse, sampling rate, band, starting phase, and window in the lattice, alone and continued by every other pulse") {
    const pulse ps[] = {{0.1, 1000, 0}, {0.0499, 1100, 0}, {0.25, 900, 0}, {0.1, 1000, 60}, {0.033, 950, 200}, {0.2, 1010, -80}, {0.01, 1000, 5}};
    for (const pulse& p : ps) for (double fs : {100.0, 500.0, 4000.0}) for (double fb : {0.0, 1000.0, 1300.0}) for (double ph : {0.0, 1.0, -2.5}) for (int w = 0; w < 4; ++w) {
        int N = (int)std::lround(p.dur * fs);
        if (N < 1) continue;
        if (!seq::next("%g s at %g Hz bandwidth %g sampled %g band %g phase %g %s", p.dur, p.fc, p.bw, fs, fb, ph, names[w])) continue;
        double beta = 1.5, T = N / fs;
        auto phase = [&](const pulse& q, double t, double TT, double start) { return start + 2 * M_PI * ((q.fc - fb - q.bw / 2) * t + q.bw * t * t / 2 / TT); };
        transmit_cw cw("CW", p.dur, p.fc, 0.25, 300.0, types[w], beta, 33.0, -7.0, 2);
        transmit_lfm lfm("LFM", p.dur, p.bw, p.fc, 0.25, 300.0, types[w], beta, 33.0, -7.0, 2);
        for (transmit_model* m : {(transmit_model*)&cw, (transmit_model*)&lfm}) {
            bool l = m == &lfm;
            if (!l && p.bw != 0) continue;
            seq::check(m->type == (l ? "LFM" : "CW") && m->duration == p.dur && m->fcenter == p.fc && m->bandwidth == p.bw && m->delay == 0.25 && m->source_level == 300 && m->window_type == types[w] && m->window_param == beta && m->orderedAZ == 33 && m->orderedDE == -7 && m->transmit_mode == 2, "attributes of the pulse");
            double out = 99;
            cdvector s = m->asignal(fs, fb, ph, &out), s2 = m->asignal(fs, fb, ph, nullptr);
            seq::check((int)s.size() == N && (int)s2.size() == N, "%zu samples instead of %d", s.size(), N);
            for (int n = 0; n < N; ++n) {
                cd want = cd(0, -1) * std::polar(shade(types[w], n, N, beta), phase(p, n / fs, T, ph));  // analytic signal of the sine
                seq::check(std::abs(s(n) - want) < 1e-7, "sample %d is %.9g%+.9gi instead of %.9g%+.9gi", n, s(n).real(), s(n).imag(), want.real(), want.imag());
                seq::check(s2(n) == s(n), "samples depend on the phase asked for");
                seq::evaluated();
            }
            seq::check(std::fabs(std::remainder(out - phase(p, T, T, ph), 2 * M_PI)) < 1e-7, "final phase %.9g instead of %.9g", out, phase(p, T, T, ph));
            // the next pulse starts where this one ends
            transmit_cw next("CW", 0.1, 1040.0);
            cdvector t = next.asignal(fs, fb, out);
            seq::check(std::abs(t(0) - cd(0, -1) * std::polar(1.0, phase(p, T, T, ph))) < 1e-7, "next pulse does not continue the phase");
            seq::observe("%.6g", out);
        }
    }
    // defaults
    if (seq::next("defaults")) {
        transmit_cw c("a", 1.0, 1000.0);
        transmit_lfm l("b", 2.0, 10.0, 2000.0);
        seq::check(c.bandwidth == 0 && c.delay == 0 && c.source_level == 1 && c.window_type == W::BOXCAR && c.orderedAZ == 0 && c.orderedDE == 0 && c.transmit_mode == 0, "defaults of cw");
        seq::check(l.bandwidth == 10 && l.fcenter == 2000 && l.delay == 0 && l.source_level == 1 && l.window_type == W::BOXCAR && l.orderedAZ == 0 && l.orderedDE == 0 && l.transmit_mode == 0, "defaults of lfm");
        seq::observe("ok");
    }
}
