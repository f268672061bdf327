// P25: turbulence closures: eddy viscosity, diffusive flux and source terms of the Spalart-Allmaras, Wilcox k-omega, SST and
// realizable k-epsilon models are the published functions of density, turbulence variables, primitive gradients and wall distance
// (no dependence on the velocity of the observer, whatever the gradients of density do).
#include "vc.hpp"
#include "Euler/RANS_ke.hpp"
using namespace DNDS;
using namespace DNDS::Euler;
using Eigen::Vector;
static inline double sq(double x) { return x * x; }
template <int dim, int nT>
struct Flow
{
    static constexpr int nV = dim + 2 + nT;
    double rho, mu, d, tv[nT];
    Vector<double, dim> v, n;
    double g[dim][dim + 1 + nT]; // primitive gradients: rho, v, turbulence variables
    Vector<double, nV> U;
    Eigen::Matrix<double, dim, nV> GU, GP;
    Flow(bool positive)
    {
        rho = vc::positive("rho", 0.5, 2), mu = vc::positive("mu", 0.1, 1), d = vc::positive("d", 0.3, 2);
        for (int i = 0; i < dim; i++)
            v(i) = vc::real("v", -2, 2, i), n(i) = vc::real("n", -1, 1, i);
        for (int i = 0; i < nT; i++)
        {
            tv[i] = vc::real("t", positive ? 0.2 : -1, 2, i);
            if (positive)
                vc::assume(tv[i] > 1e-30);
        }
        for (int i = 0; i < dim; i++)
            for (int j = 0; j < dim + 1 + nT; j++)
                g[i][j] = vc::real("g", -1, 1, i, j);
        U(0) = rho;
        for (int j = 0; j < dim; j++)
            U(1 + j) = rho * v(j);
        U(dim + 1) = vc::real("E", 5, 9);
        for (int j = 0; j < nT; j++)
            U(dim + 2 + j) = rho * tv[j];
        for (int i = 0; i < dim; i++)
        {
            GU(i, 0) = GP(i, 0) = g[i][0];
            for (int j = 0; j < dim; j++)
                GP(i, 1 + j) = g[i][1 + j], GU(i, 1 + j) = rho * g[i][1 + j] + v(j) * g[i][0];
            GU(i, dim + 1) = vc::real("gE", -1, 1, i), GP(i, dim + 1) = vc::real("gp", -1, 1, i);
            for (int j = 0; j < nT; j++)
                GP(i, dim + 2 + j) = g[i][1 + dim + j], GU(i, dim + 2 + j) = rho * g[i][1 + dim + j] + tv[j] * g[i][0];
        }
    }
    double gv(int i, int j) const { return g[i][1 + j]; }      // d v_j / d x_i
    double gt(int i, int j) const { return g[i][1 + dim + j]; } // d t_j / d x_i
    double div() const
    {
        double s = 0;
        for (int i = 0; i < dim; i++)
            s += gv(i, i);
        return s;
    }
    // twice the strain rate, without its trace if asked
    double s2(int i, int j, bool dev) const { return gv(i, j) + gv(j, i) - (dev && i == j ? 2. / 3. * div() : 0.); }
    double w2(int i, int j) const { return gv(j, i) - gv(i, j); } // twice the rotation rate
    double sumS2(bool dev) const
    {
        double s = 0;
        for (int i = 0; i < dim; i++)
            for (int j = 0; j < dim; j++)
                s += sq(s2(i, j, dev));
        return s;
    }
    double sumW2() const
    {
        double s = 0;
        for (int i = 0; i < dim; i++)
            for (int j = 0; j < dim; j++)
                s += sq(w2(i, j));
        return s;
    }
    double cross(int a, int b) const
    {
        double s = 0;
        for (int i = 0; i < dim; i++)
            s += gt(i, a) * gt(i, b);
        return s;
    }
    double normal(int a) const
    {
        double s = 0;
        for (int i = 0; i < dim; i++)
            s += gt(i, a) * n(i);
        return s;
    }
    // production: minus the turbulent stress times the velocity gradient
    double production(double mut) const
    {
        double s = 0;
        for (int i = 0; i < dim; i++)
            for (int j = 0; j < dim; j++)
                s += (mut * s2(i, j, true) - (i == j ? 2. / 3. * rho * tv[0] : 0.)) * gv(i, j);
        return s;
    }
};
static double tiny() { return std::pow(verySmallReal, 1. / 4); } // regularisation used by the code

// ---- Wilcox k-omega (2006) ----
template <int dim>
static double mutWilcox(const Flow<dim, 2> &f)
{
    double w = std::max(f.tv[1], 7. / 8. * std::sqrt(0.5 * f.sumS2(false) / 0.09));
    return std::min(f.rho * f.tv[0] / w, 1e5 * f.mu);
}
template <int dim>
static void wilcox(int what)
{
    Flow<dim, 2> f(true);
    double mut = mutWilcox(f), k = f.tv[0], w = f.tv[1];
    if (what == 0)
        vc::eq(RANS::GetMut_KOWilcox<dim>(f.U, f.GU, f.mu, f.d), mut, "eddy-viscosity");
    Vector<double, dim + 4> r;
    r.setZero();
    if (what == 1)
    {
        RANS::GetVisFlux_KOWilcox<dim>(f.U, f.GP, f.n, mut, f.d, f.mu, r);
        vc::eq(r(dim + 2), f.normal(0) * (f.mu + 0.5 * mut), "diffusion", 0);
        vc::eq(r(dim + 3), f.normal(1) * (f.mu + 0.5 * mut), "diffusion", 1);
    }
    if (what < 2)
        return;
    double chi = 0;
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < dim; j++)
            for (int l = 0; l < dim; l++)
                chi += f.w2(i, j) * f.w2(j, l) * f.s2(l, i, false) / 8;
    chi = std::abs(chi / (0.09 * w * 0.09 * w * 0.09 * w));
    double beta = 0.0708 * (1 + 85 * chi) / (1 + 100 * chi);
    RANS::GetSource_KOWilcox<dim>(f.U, f.GU, f.mu, f.d, r, what - 2);
    if (what == 3)
    {
        vc::eq(r(dim + 2), 0.09 * w, "source-diagonal", 0);
        vc::eq(r(dim + 3), 2 * beta * w, "source-diagonal", 1);
        return;
    }
    double P = f.production(mut), x = f.cross(0, 1), c = 0.09 * f.rho * k * w;
    vc::eq(r(dim + 2), std::min(std::max(P, verySmallReal), 20 * c) - c, "source", 0);
    vc::eq(r(dim + 3), 13. / 25. * w / k * P - beta * f.rho * w * w + (x > 0 ? 0.125 * f.rho / w * x : 0.), "source", 1);
}
CONTRACT(wilcox_mut_2d) { wilcox<2>(0); }
CONTRACT(wilcox_mut_3d) { wilcox<3>(0); }
CONTRACT(wilcox_diffusion_2d) { wilcox<2>(1); }
CONTRACT(wilcox_diffusion_3d) { wilcox<3>(1); }
CONTRACT(wilcox_source_2d) { wilcox<2>(2); }
CONTRACT(wilcox_source_3d) { wilcox<3>(2); }
CONTRACT(wilcox_diagonal_3d) { wilcox<3>(3); }

// ---- Menter SST ----
template <int dim>
struct SST
{
    double F1, F2, mut;
    SST(const Flow<dim, 2> &f)
    {
        double k = f.tv[0], w = f.tv[1], nu = f.mu / f.rho, d = f.d;
        double a = std::sqrt(k) / (0.09 * w * d), b = 500 * nu / (d * d * w);
        double cd = std::max(2 * f.rho * 0.856 / w * f.cross(0, 1), 1e-10);
        F1 = std::tanh(std::pow(std::min(std::max(a, b), 4 * f.rho * 0.856 * k / (cd * d * d)), 4));
        F2 = std::tanh(sq(std::max(2 * a, b)));
        double vort = std::sqrt(f.sumW2() / 4) * std::sqrt(2);
        mut = std::min(0.31 * k / std::max(vort * F2, 0.31 * w) * f.rho, 1e5 * f.mu);
    }
    double mix(double a, double b) const { return a * F1 + b * (1 - F1); }
};
template <int dim>
static void sst(int what)
{
    Flow<dim, 2> f(true);
    SST<dim> m(f);
    double k = f.tv[0], w = f.tv[1];
    if (what == 0)
        vc::eq(RANS::GetMut_SST<dim>(f.U, f.GU, f.mu, f.d), m.mut, "eddy-viscosity");
    Vector<double, dim + 4> r;
    r.setZero();
    if (what == 1)
    {
        double mutIn = vc::positive("mutIn", 0, 2);
        RANS::GetVisFlux_SST<dim>(f.U, f.GP, f.n, mutIn, f.d, f.mu, r);
        vc::eq(r(dim + 2), f.normal(0) * (f.mu + m.mix(0.85, 1) * mutIn), "diffusion", 0);
        vc::eq(r(dim + 3), f.normal(1) * (f.mu + m.mix(0.5, 0.856) * mutIn), "diffusion", 1);
    }
    if (what < 2)
        return;
    RANS::GetSource_SST<dim>(f.U, f.GU, f.mu, f.d, r, what - 2);
    double beta = m.mix(0.075, 0.0828);
    if (what == 3)
    {
        vc::eq(r(dim + 2), 0.09 * w, "source-diagonal", 0);
        vc::eq(r(dim + 3), 2 * beta * w, "source-diagonal", 1);
        return;
    }
    double g1 = 0.075 / 0.09 - 0.5 * sq(0.41) / std::sqrt(0.09), g2 = 0.0828 / 0.09 - 0.856 * sq(0.41) / std::sqrt(0.09);
    double P = f.production(m.mut), c = 0.09 * f.rho * k * w;
    vc::eq(r(dim + 2), std::min(std::max(P, verySmallReal), 20 * c) - c, "source", 0);
    double s = 0;
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < dim; j++)
            s += f.s2(i, j, true) * f.gv(i, j);
    vc::eq(r(dim + 3), m.mix(g1, g2) * f.rho * s - beta * f.rho * w * w + 2 * (1 - m.F1) * f.rho * 0.856 / w * f.cross(0, 1), "source", 1);
}
CONTRACT(sst_mut_2d) { sst<2>(0); }
CONTRACT(sst_mut_3d) { sst<3>(0); }
CONTRACT(sst_diffusion_2d) { sst<2>(1); }
CONTRACT(sst_diffusion_3d) { sst<3>(1); }
CONTRACT(sst_source_2d) { sst<2>(2); }
CONTRACT(sst_source_3d) { sst<3>(2); }
CONTRACT(sst_diagonal_3d) { sst<3>(3); }

// ---- realizable k-epsilon ----
template <int dim>
static void rke(int what)
{
    Flow<dim, 2> f(true);
    double t = tiny();
    double k = what == 0 ? f.tv[0] + t : std::max(f.tv[0], t), e = what == 0 ? f.tv[1] + t : std::max(f.tv[1], t); // the viscosity floors by adding, the source by max
    double Ret = f.rho * k * k / (f.mu * e) + (what == 0 ? smallReal : t);
    double S = std::sqrt(f.sumS2(true) / 2) + t;
    double den = 1 - std::exp(-std::sqrt(Ret));
    if (what > 1)
        den = std::max(den, t);
    double mut = 0.09 * ((1 - std::exp(-0.01 * Ret)) / den * std::max(1., std::sqrt(2 / Ret))) * f.rho * k * k / e;
    mut = std::min(mut, 2. / 3. * f.rho * k / S);
    Vector<double, dim + 4> r;
    r.setZero();
    if (what == 0)
        vc::eq(RANS::GetMut_RealizableKe<dim>(f.U, f.GU, f.mu, f.d), std::min(mut, 1e5 * f.mu), "eddy-viscosity");
    if (what == 1)
    {
        double mutIn = vc::positive("mutIn", 0, 2);
        RANS::GetVisFlux_RealizableKe<dim>(f.U, f.GP, f.n, mutIn, f.d, f.mu, r);
        vc::eq(r(dim + 2), f.normal(0) * (f.mu + mutIn), "diffusion", 0);
        vc::eq(r(dim + 3), f.normal(1) * (f.mu + mutIn / 1.3), "diffusion", 1);
    }
    if (what < 2)
        return;
    RANS::GetSource_RealizableKe<dim>(f.U, f.GU, f.mu, f.d, r, what - 2);
    double T = k / e * std::max(1., 1 / std::sqrt(Ret / 2)) + smallReal;
    if (what == 3)
    {
        vc::eq(r(dim + 2), 0, "source-diagonal", 0);
        vc::eq(r(dim + 3), 1.92 / T, "source-diagonal", 1);
        return;
    }
    double P = std::min(f.production(mut), 1.065 * 0.09 * sq(f.rho * f.tv[0]) / mut);
    double psi = std::max(0., f.cross(0, 0) / e - k / (e * e) * f.cross(0, 1));
    double E = 0.3 * f.rho * std::sqrt(e * T) * psi * std::max(std::sqrt(k), std::pow(f.mu * e / f.rho, 0.25));
    vc::eq(r(dim + 2), P - f.rho * f.tv[1], "source", 0);
    vc::eq(r(dim + 3), (1.44 * P - 1.92 * f.rho * f.tv[1] + E) / T, "source", 1);
}
CONTRACT(rke_mut_2d) { rke<2>(0); }
CONTRACT(rke_mut_3d) { rke<3>(0); }
CONTRACT(rke_diffusion_3d) { rke<3>(1); }
CONTRACT(rke_source_2d) { rke<2>(2); }
CONTRACT(rke_source_3d) { rke<3>(2); }
CONTRACT(rke_diagonal_3d) { rke<3>(3); }

// ---- Spalart-Allmaras (negative branch included); the transported variable is rho nuTilde / muRef ----
template <int dim>
static void sa(bool neg, int rot, int mode)
{
    Flow<dim, 1> f(false);
    vc::assume(neg ? f.tv[0] < 0 : f.tv[0] > 0);
    double muRef = vc::positive("muRef", 0.2, 1), gamma = vc::real("gamma", 1.1, 1.9);
    double nu = f.tv[0] * muRef, chi = f.rho * nu / f.mu, d = f.d, kap = 0.41, cb1 = 0.1355, cb2 = 0.622, sig = 2. / 3.;
    double cw1 = cb1 / sq(kap) + (1 + cb2) / sig, c3 = std::pow(chi, 3);
    double W = std::sqrt(f.sumW2() / 4) * std::sqrt(2), S = std::sqrt(f.sumS2(false));
    double P, D, fn = 1;
    double corr = rot ? std::min(0., S - W) : 0.;
    if (neg)
    {
        fn = (16 + c3) / (16 - c3);
        D = -cw1 * sq(nu / d);
        P = cb1 * (1 - 1.2) * (rot ? std::abs(W + corr) : W) * nu;
    }
    else
    {
        double fv1 = c3 / (c3 + std::pow(7.1, 3)), fv2 = 1 - chi / (1 + chi * fv1), Sb = nu / (sq(kap) * sq(d)) * fv2;
        double Sh = Sb < -0.7 * W ? W + W * (sq(0.7) * W + 0.9 * Sb) / ((0.9 - 2 * 0.7) * W - Sb) : W + Sb;
        double r = std::min(nu / (Sh * sq(kap * d) + verySmallReal), 10.);
        double g = r + 0.3 * (std::pow(r, 6) - r);
        double fw = g * std::pow((1 + std::pow(2., 6)) / (std::pow(g, 6) + std::pow(2., 6)), 1. / 6.);
        double ft2 = 1.2 * std::exp(-0.5 * sq(chi));
        D = (cw1 * fw - cb1 / sq(kap) * ft2) * sq(nu / d);
        P = cb1 * (1 - ft2) * (Sh + corr) * nu;
    }
    Vector<double, dim + 3> r;
    r.setZero();
    RANS::GetSource_SA<dim>(f.U, f.GU, muRef, f.mu, gamma, d, r, rot, mode);
    double gg = 0, gr = 0;
    for (int i = 0; i < dim; i++)
        gg += sq(f.gt(i, 0) * muRef), gr += f.gt(i, 0) * muRef * f.g[i][0];
    if (mode == 0)
        vc::eq(r(dim + 2), (f.rho * (P - D + cb2 / sig * gg) - (f.mu / f.rho + nu * fn) / sig * gr) / muRef, "source");
    else
        vc::eq(r(dim + 2), std::max(2 * f.rho * D / muRef / (f.rho * f.tv[0] + verySmallReal), verySmallReal), "source-diagonal");
}
CONTRACT(sa_source_2d) { sa<2>(false, 0, 0); }
CONTRACT(sa_source_3d) { sa<3>(false, 0, 0); }
CONTRACT(sa_source_rot_3d) { sa<3>(false, 1, 0); }
CONTRACT(sa_negative_2d) { sa<2>(true, 0, 0); }
CONTRACT(sa_negative_3d) { sa<3>(true, 0, 0); }
CONTRACT(sa_negative_rot_3d) { sa<3>(true, 1, 0); }
CONTRACT(sa_diagonal_3d) { sa<3>(false, 0, 1); }
