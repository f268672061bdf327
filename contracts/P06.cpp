// P06: rotations, local frames, periodic transformations
#include "vc.hpp"
#include "DNDS/Defines.hpp"
#include <iostream>
#include "Geom/BaseFunction.hpp"
namespace DNDS::Geom::Base
{ // contract of ndiffSizS, proved in P04 (clang cannot fold the table lookup)
    template <>
    constexpr int ndiffSizS<2>(int i) { return (i + 1) * (i + 2) / 2; }
    template <>
    constexpr int ndiffSizS<3>(int i) { return (i + 1) * (i + 2) * (i + 3) / 6; }
}
#include "Geom/DiffTensors.hpp"
using namespace DNDS;
using namespace DNDS::Geom;
using Eigen::Matrix;
using Eigen::MatrixXd;
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;

template <class M>
static void orthonormal(const M &R, int code = 0)
{
    const int n = R.rows();
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
        {
            double s = 0;
            for (int k = 0; k < n; k++)
                s += R(k, i) * R(k, j);
            vc::eq(s, i == j ? 1 : 0, "orthonormal", i + 10 * code, j);
        }
    double det = n == 2 ? R(0, 0) * R(1, 1) - R(0, 1) * R(1, 0)
                        : R(0, 0) * (R(1, 1) * R(2 % n, 2 % n) - R(1, 2 % n) * R(2 % n, 1)) - R(0, 1) * (R(1, 0) * R(2 % n, 2 % n) - R(1, 2 % n) * R(2 % n, 0)) + R(0, 2 % n) * (R(1, 0) * R(2 % n, 1) - R(1, 1) * R(2 % n, 0));
    vc::eq(det, 1, "right-handed", code);
}
static V3 vec(const char *n)
{
    V3 v;
    for (int i = 0; i < 3; i++)
        v(i) = vc::real(n, -2, 2, i);
    return v;
}
static double cosd(double t) { return std::cos(t * (pi / 180.0)); }
static double sind(double t) { return std::sin(t * (pi / 180.0)); }
CONTRACT(rot_axes)
{
    double t = vc::real("theta", -180, 180);
    M3 R[3] = {RotX(t), RotY(t), RotZ(t)};
    for (int a = 0; a < 3; a++)
    {
        orthonormal(R[a], a);
        int b = (a + 1) % 3, c = (a + 2) % 3;
        // keeps the axis, turns the next axis by theta towards the one after it
        for (int i = 0; i < 3; i++)
            vc::eq(R[a](i, a), i == a ? 1 : 0, "axis-kept", a, i);
        vc::eq(R[a](b, b), cosd(t), "angle", a, 0);
        vc::eq(R[a](c, b), sind(t), "angle", a, 1);
        vc::eq(R[a](b, c), -sind(t), "angle", a, 2);
    }
}
CONTRACT(rot_axis_vector)
{
    double n[3];
    __vc_unit("n", n, 3);
    double th = vc::positive("theta", 0.1, 3);
    vc::assume(th > 0.001);
    V3 ax(n[0] * th, n[1] * th, n[2] * th);
    M3 R = RotateAxis(ax);
    orthonormal(R);
    V3 r = R * ax;
    for (int i = 0; i < 3; i++)
        vc::eq(r(i), ax(i), "axis-kept", i);
    vc::eq(R(0, 0) + R(1, 1) + R(2, 2), 1 + 2 * std::cos(th), "angle");
    // right-hand sense: antisymmetric part is sin(theta) * axis
    vc::eq(R(2, 1) - R(1, 2), 2 * std::sin(th) * n[0], "sense", 0);
    vc::eq(R(0, 2) - R(2, 0), 2 * std::sin(th) * n[1], "sense", 1);
    vc::eq(R(1, 0) - R(0, 1), 2 * std::sin(th) * n[2], "sense", 2);
}
CONTRACT(rot_axis_zero)
{
    M3 R = RotateAxis(V3(0, 0, 0));
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            vc::eq(R(i, j), i == j ? 1 : 0, "identity", i, j);
}
CONTRACT(cross_matrix)
{
    V3 a = vec("a"), b = vec("b");
    M3 A = CrossVecToMat(a);
    V3 r = A * b;
    for (int i = 0; i < 3; i++)
    {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        vc::eq(r(i), a(j) * b(k) - a(k) * b(j), "cross-product", i);
        vc::eq(CrossMatToVec(A)(i), a(i), "round-trip", i);
    }
}
CONTRACT(local_frame_2d)
{
    double n[2];
    __vc_unit("n", n, 2);
    Eigen::Vector2d u(n[0], n[1]);
    auto B = NormBuildLocalBaseV<2>(u);
    orthonormal(B);
    for (int i = 0; i < 2; i++)
        vc::eq(B(i, 0), n[i], "first-axis-is-normal", i);
}
CONTRACT(local_frame_3d)
{
    double n[3];
    __vc_unit("n", n, 3);
    V3 u(n[0], n[1], n[2]);
    auto B = NormBuildLocalBaseV<3>(u);
    orthonormal(B);
    for (int i = 0; i < 3; i++)
        vc::eq(B(i, 0), n[i], "first-axis-is-normal", i);
}
CONTRACT(face_normal_3d)
{
    M3 J;
    for (int i = 0; i < 3; i++)
        J(i, 0) = vc::real("J", -2, 2, i, 0), J(i, 1) = vc::real("J", -2, 2, i, 1), J(i, 2) = 0;
    V3 n = FacialJacobianToNormVec<3>(J);
    for (int i = 0; i < 3; i++)
    {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        vc::eq(n(i), J(j, 0) * J(k, 1) - J(k, 0) * J(j, 1), "area-vector", i);
    }
}
CONTRACT(face_normal_2d)
{
    M3 J = M3::Zero();
    J(0, 0) = vc::real("J", -2, 2, 0), J(1, 0) = vc::real("J", -2, 2, 1);
    V3 n = FacialJacobianToNormVec<2>(J);
    vc::eq(n(0), J(1, 0), "normal-to-the-right", 0);
    vc::eq(n(1), -J(0, 0), "normal-to-the-right", 1);
    vc::eq(n(2), 0, "normal-to-the-right", 2);
}
CONTRACT(storage_round_trip)
{
    M3 J;
    V3 v = vec("v");
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            J(i, j) = vc::real("J", -2, 2, i, j);
    M3 K = STDVectorToJacobi(JacobiToSTDVector(J));
    Eigen::VectorXd w = STDVectorToVector(VectorToSTDVector(v));
    vc::ieq(w.size(), 3, "size");
    for (int i = 0; i < 3; i++)
    {
        vc::eq(w(i), v(i), "vector", i);
        for (int j = 0; j < 3; j++)
            vc::eq(K(i, j), J(i, j), "matrix", i, j);
    }
    V3 a = ToThreeDim<2>(Eigen::Vector2d(v(0), v(1))), b = ToThreeDim<3>(v);
    for (int i = 0; i < 3; i++)
        vc::eq(a(i), i < 2 ? v(i) : 0, "embed", i), vc::eq(b(i), v(i), "embed3", i);
}

// ---------------------------------------------------------------- periodic transformations
// arbitrary proper rotation from a quaternion on the unit sphere
static M3 rot3(const char *n)
{
    double a = vc::real(n, -2, 2, 0), b = vc::real(n, -2, 2, 1), c = vc::real(n, -2, 2, 2);
    double s = 1 + a * a + b * b + c * c;
    M3 R; // Cayley form: every rotation except half turns
    R << 1 + a * a - b * b - c * c, 2 * (a * b - c), 2 * (a * c + b),
        2 * (a * b + c), 1 - a * a + b * b - c * c, 2 * (b * c - a),
        2 * (a * c - b), 2 * (b * c + a), 1 - a * a - b * b + c * c;
    return R / s;
}
static M3 rotZ(const char *n)
{
    double c = vc::real(n, -2, 2, 2), s = 1 + c * c;
    M3 R;
    R << (1 - c * c) / s, -2 * c / s, 0, 2 * c / s, (1 - c * c) / s, 0, 0, 0, 1;
    return R;
}
static int which(t_index id) { return id < -3 ? -id - 3 : -id; }
struct Per
{
    Base::CFVPeriodicity P;
    M3 R[4];
    V3 t[4], c[4];
};
// only the transformation selected by sel is arbitrary, the others are distinct fixed ones
static Per periodic(int sel, bool planar)
{
    Per p;
    for (int i = 1; i < 4; i++)
    {
        if (i == sel)
            p.R[i] = planar ? rotZ("R") : rot3("R"), p.t[i] = vec("t"), p.c[i] = vec("c");
        else
        {
            p.R[i] << 0, -1, 0, 1, 0, 0, 0, 0, 1;
            p.t[i] = V3(i, 2 * i, 3), p.c[i] = V3(5, i, 1);
        }
        p.P.rotation[i] = p.R[i], p.P.translation[i] = p.t[i], p.P.rotationCenter[i] = p.c[i];
    }
    return p;
}
static const t_index IDS[6] = {BC_ID_PERIODIC_1, BC_ID_PERIODIC_2, BC_ID_PERIODIC_3, BC_ID_PERIODIC_1_DONOR, BC_ID_PERIODIC_2_DONOR, BC_ID_PERIODIC_3_DONOR};
static void coord(int q)
{
    t_index id = IDS[q];
    int w = q % 3 + 1;
    Per p = periodic(w, false);
    V3 x = vec("x"), y = vec("y");
    V3 X = p.P.TransCoord(x, id), Y = p.P.TransCoord(y, id);
    V3 e = p.R[w] * (x - p.c[w]) + p.c[w] + p.t[w];
    V3 b = p.P.TransCoordBack(X, id), b2 = p.P.TransCoord(p.P.TransCoordBack(x, id), id);
    double d0 = 0, d1 = 0;
    for (int i = 0; i < 3; i++)
    {
        vc::eq(X(i), e(i), "rigid-motion", i);
        vc::eq(b(i), x(i), "inverse-right", i);
        vc::eq(b2(i), x(i), "inverse-left", i);
        d0 += (x(i) - y(i)) * (x(i) - y(i)), d1 += (X(i) - Y(i)) * (X(i) - Y(i));
    }
    vc::eq(d1, d0, "distance-kept");
    // vectors follow differences of points
    Matrix<double, 3, 1> v = x - y, V = p.P.TransVector<3, 1>(v, id), vb = p.P.TransVectorBack<3, 1>(V, id);
    for (int i = 0; i < 3; i++)
        vc::eq(V(i), X(i) - Y(i), "vector-follows-points", i), vc::eq(vb(i), v(i), "vector-inverse", i);
}
CONTRACT(coord_1) { coord(0); }
CONTRACT(coord_2) { coord(1); }
CONTRACT(coord_3) { coord(2); }
CONTRACT(coord_1d) { coord(3); }
CONTRACT(coord_2d) { coord(4); }
CONTRACT(coord_3d) { coord(5); }
template <int dim>
static void tensors(int q)
{
    t_index id = IDS[q];
    int w = q % 3 + 1;
    Per p = periodic(w, dim == 2);
    Matrix<double, dim, dim> m, R = p.R[w].topLeftCorner<dim, dim>();
    Matrix<double, dim, 2> v;
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < dim; j++)
            m(i, j) = vc::real("m", -2, 2, i, j);
    for (int i = 0; i < dim; i++)
        for (int j = 0; j < 2; j++)
            v(i, j) = vc::real("v", -2, 2, i, j);
    auto M = p.P.template TransMat<dim>(m, id);
    auto B = p.P.template TransMatBack<dim>(M, id);
    auto V = p.P.template TransVector<dim, 2>(v, id);
    auto W = p.P.template TransVectorBack<dim, 2>(V, id);
    for (int i = 0; i < dim; i++)
    {
        for (int j = 0; j < dim; j++)
        {
            double s = 0;
            for (int k = 0; k < dim; k++)
                for (int l = 0; l < dim; l++)
                    s += R(i, k) * m(k, l) * R(j, l);
            vc::eq(M(i, j), s, "matrix-follows-vectors", i, j);
            vc::eq(B(i, j), m(i, j), "matrix-inverse", i, j);
        }
        for (int j = 0; j < 2; j++)
        {
            double s = 0;
            for (int k = 0; k < dim; k++)
                s += R(i, k) * v(k, j);
            vc::eq(V(i, j), s, "vectors", i, j);
            vc::eq(W(i, j), v(i, j), "vectors-inverse", i, j);
        }
    }
    // derivative rows up to second order
    MatrixXd D(dim == 2 ? 6 : 10, 1), D0;
    for (int i = 0; i < D.rows(); i++)
        D(i, 0) = vc::real("D", -2, 2, i);
    D0 = D;
    p.P.template TransDiValueInplace<dim>(D, id);
    for (int i = 0; i < dim; i++)
    {
        double s = 0;
        for (int k = 0; k < dim; k++)
            s += R(i, k) * D0(1 + k, 0);
        vc::eq(D(1 + i, 0), s, "gradient-follows-vectors", i);
    }
    p.P.template TransDiValueBackInplace<dim>(D, id);
    for (int i = 0; i < D.rows(); i++)
        vc::eq(D(i, 0), D0(i, 0), "derivatives-inverse", i);
}
CONTRACT(tensors_2d_1) { tensors<2>(0); }
CONTRACT(tensors_2d_2) { tensors<2>(1); }
CONTRACT(tensors_2d_3) { tensors<2>(2); }
CONTRACT(tensors_2d_1d) { tensors<2>(3); }
CONTRACT(tensors_2d_2d) { tensors<2>(4); }
CONTRACT(tensors_2d_3d) { tensors<2>(5); }
CONTRACT(tensors_3d_1) { tensors<3>(0); }
CONTRACT(tensors_3d_2) { tensors<3>(1); }
CONTRACT(tensors_3d_3) { tensors<3>(2); }
CONTRACT(tensors_3d_1d) { tensors<3>(3); }
CONTRACT(tensors_3d_2d) { tensors<3>(4); }
CONTRACT(tensors_3d_3d) { tensors<3>(5); }
// periodic bits: applied in the order 3, 2, 1 and undone in the order 1, 2, 3
static void bits(int b)
{
    Per p = periodic(b & 1 ? 1 : b & 2 ? 2 : 3, false);
    NodePeriodicBits nb;
    if (b & 1)
        nb.setP1True();
    if (b & 2)
        nb.setP2True();
    if (b & 4)
        nb.setP3True();
    vc::ieq(nb.getP1(), !!(b & 1), "bit", 1), vc::ieq(nb.getP2(), !!(b & 2), "bit", 2), vc::ieq(nb.getP3(), !!(b & 4), "bit", 3);
    vc::ieq(bool(nb), b != 0, "any");
    V3 x = vec("x"), e = x;
    Matrix<double, 3, 1> v = vec("v"), ev = v;
    for (int i = 3; i >= 1; i--)
        if (b & (1 << (i - 1)))
            e = p.R[i] * (e - p.c[i]) + p.c[i] + p.t[i], ev = p.R[i] * ev;
    V3 X = p.P.GetCoordByBits(x, nb), y = p.P.GetCoordBackByBits(X, nb);
    Matrix<double, 3, 1> W = p.P.GetVectorByBits<3, 1>(v, nb), w = p.P.GetVectorBackByBits<3, 1>(W, nb);
    for (int i = 0; i < 3; i++)
    {
        vc::eq(X(i), e(i), "composition", i), vc::eq(y(i), x(i), "undone", i);
        vc::eq(W(i), ev(i), "vector-composition", i), vc::eq(w(i), v(i), "vector-undone", i);
    }
}
CONTRACT(bits_0) { bits(0); }
CONTRACT(bits_1) { bits(1); }
CONTRACT(bits_2) { bits(2); }
CONTRACT(bits_3) { bits(3); }
CONTRACT(bits_4) { bits(4); }
CONTRACT(bits_5) { bits(5); }
CONTRACT(bits_6) { bits(6); }
CONTRACT(bits_7) { bits(7); }
CONTRACT(face_ids)
{
    long id = vc::integer("id", -100, 100);
    t_index f = id;
    bool main = id >= -3 && id <= -1, donor = id >= -6 && id <= -4;
    vc::check(FaceIDIsPeriodic(f) == (main || donor), "periodic");
    vc::check(FaceIDIsPeriodicDonor(f) == donor, "donor");
    vc::check(FaceIDIsPeriodicMain(f) == main, "main");
    vc::check(FaceIDIsPeriodic1(f) == (id == -1 || id == -4), "direction", 1);
    vc::check(FaceIDIsPeriodic2(f) == (id == -2 || id == -5), "direction", 2);
    vc::check(FaceIDIsPeriodic3(f) == (id == -3 || id == -6), "direction", 3);
    vc::check(FaceIDIsExternalBC(f) == (id > 0), "external");
    vc::check(FaceIDIsInternal(f) == (id <= 0), "internal");
    vc::check(FaceIDIsTrueInternal(f) == (id == 0), "true-internal");
}
CONTRACT(bad_id_rejected)
{
    Per p = periodic(1, false);
    V3 x = vec("x");
    for (t_index id : {0, 1, 2, -7, -100})
    {
        vc::check(vc::aborts([&] { p.P.TransCoord(x, id); }), "rejected", id + 200);
        vc::check(vc::aborts([&] { p.P.TransCoordBack(x, id); }), "rejected-back", id + 200);
    }
}
// two rows of bits are compatible when they differ by the same shift everywhere
static void collaborative(int n)
{
    std::vector<NodePeriodicBits> a(n), b(n);
    long s = vc::choice("s", 0, 7);
    long k = vc::choice("k", 0, n), e = vc::choice("e", 0, 7);
    for (int i = 0; i < n; i++)
        a[i].__v = (i * 3 + 1) & 7, b[i].__v = a[i].__v ^ s;
    bool same = true;
    if (k < n)
        b[k].__v ^= e, same = e == 0 || n == 1;
    vc::ieq(isCollaborativeNodePeriodicBits(a, b), same, "same-shift");
    NodePeriodicBitsRow r(b.data(), n);
    int all = 7;
    for (int i = 0; i < n; i++)
        all &= b[i].__v;
    vc::ieq(uint8_t(r.bitandReduce().__v), all, "common-bits");
}
CONTRACT(collaborative_0) { collaborative(0); }
CONTRACT(collaborative_1) { collaborative(1); }
CONTRACT(collaborative_2) { collaborative(2); }
CONTRACT(collaborative_4) { collaborative(4); }
CONTRACT(collaborative_9) { collaborative(9); }
