// P12: size and index arithmetic (integers are machine bit-vectors of their real width here).
#include "vc.hpp"
#include "DNDS/Defines.hpp"
#include <climits>
using namespace DNDS;
using DIdx = DNDS::index;

template <class T>
static T any(const char *n, int i = -1) { return (T)vc::integer(n, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), i); }

// overflow of a signed sum, from the wrapped sum alone
template <class T>
static bool overflows(T a, T b)
{
    using U = std::make_unsigned_t<T>;
    T w = (T)(U)((U)a + (U)b);
    return (a < 0) == (b < 0) && (w < 0) != (a < 0);
}
template <class T>
static void addContract()
{
    using U = std::make_unsigned_t<T>;
    T a = any<T>("a"), b = any<T>("b");
    bool ov = overflows<T>(a, b);
    vc::check(signedIntWillAddOverflow<T>(a, b) == ov, "overflow_predicted_exactly");
    T r = 0;
    bool ab = vc::aborts([&]() { r = signedIntSafeAdd<T>(a, b); });
    vc::check(ab == ov, "safe_add_rejects_exactly_overflow");
    if (!ab)
        vc::check(r == (T)(U)((U)a + (U)b), "safe_add_sum");
}
CONTRACT(add_int32) { addContract<int32_t>(); }
CONTRACT(add_int64) { addContract<int64_t>(); }

template <class T>
static void sizeContract()
{
    size_t v = (size_t)vc::integer("v", LONG_MIN, LONG_MAX);
    T r = 0;
    bool ab = vc::aborts([&]() { r = size_t_to_signed<T>(v); });
    vc::check(ab == (v > (size_t)std::numeric_limits<T>::max()), "rejects_exactly_unrepresentable");
    if (!ab)
        vc::check(r >= 0 && (size_t)r == v, "value_preserved");
}
CONTRACT(size_to_int32) { sizeContract<int32_t>(); }
CONTRACT(size_to_int64) { sizeContract<int64_t>(); }

CONTRACT(index_to_32)
{
    DIdx v = vc::integer("v", LONG_MIN, LONG_MAX);
    int32_t r = 0;
    bool ab = vc::aborts([&]() { r = checkedIndexTo32(v); });
    vc::check(ab == (v > 2147483647L || v < -2147483648L), "rejects_exactly_unrepresentable");
    if (!ab)
        vc::check((DIdx)r == v, "value_preserved");
}

template <class TS, class TI>
static void accumulate()
{
    int n = vc::choice("n", 0, sizeof(TI) == 8 ? 4 : 3);
    std::vector<TS> s(n);
    std::vector<TI> st;
    bool ov = false;
    TI sum = 0;
    std::vector<TI> want(1, 0);
    for (int i = 0; i < n; i++)
    {
        s[i] = any<TS>("size", i);
        if (!ov)
        {
            ov = overflows<TI>(sum, (TI)s[i]);
            if (vc::split(ov))
                ov = true;
            else
            {
                ov = false;
                sum = sum + (TI)s[i];
                want.push_back(sum);
            }
        }
    }
    bool ab = vc::aborts([&]() { AccumulateRowSize(s, st); });
    vc::check(ab == ov, "rejects_exactly_overflow", n);
    if (!ab)
    {
        vc::ieq(st.size(), n + 1, "one_more_start_than_rows", n);
        for (int i = 0; i <= n; i++)
            vc::ieq(st[i], want[i], "prefix_sum", n, i);
    }
}
CONTRACT(accumulate_32_64) { accumulate<int32_t, int64_t>(); }
CONTRACT(accumulate_64_64) { accumulate<int64_t, int64_t>(); }
CONTRACT(accumulate_32_32) { accumulate<int32_t, int32_t>(); }

CONTRACT(uniform_vector)
{
    int n = vc::choice("n", 0, 4);
    std::vector<int64_t> v(n);
    for (int i = 0; i < n; i++)
        v[i] = any<int64_t>("v", i);
    bool uni = n > 0;
    for (int i = 1; i < n; i++)
        uni = uni && v[i] == v[0];
    int64_t val = -7;
    bool r = checkUniformVector(v, val);
    vc::check(r == uni, "uniform_iff_all_equal", n);
    if (r)
        vc::check(val == v[0], "common_value", n);
}

// quotient / remainder: the defining inequalities, 8 bit operands over their whole range and 64 bit with fixed divisors
CONTRACT(div_ceil)
{
    int8_t a = any<int8_t>("a"), b = any<int8_t>("b");
    vc::assume(a >= 0 && b > 0);
    int q1 = divCeil(a, b), q2 = divide_ceil(a, b);
    vc::check(q1 * b >= a && (q1 - 1) * b < a, "divCeil_smallest_cover");
    vc::check(q2 * b >= a && (q2 - 1) * b < a, "divide_ceil_smallest_cover");
}
template <class T>
static void divCeilFixed(T b)
{
    T a = any<T>("a");
    vc::assume(a >= 0 && a < std::numeric_limits<T>::max() - b);
    T q1 = divCeil(a, b), q2 = divide_ceil(a, b);
    vc::check(q1 * b >= a && q1 * b - b < a, "divCeil_smallest_cover", b);
    vc::check(q2 * b >= a && q2 * b - b < a, "divide_ceil_smallest_cover", b);
}
CONTRACT(div_ceil_8) { divCeilFixed<int64_t>(8); }
CONTRACT(div_ceil_3) { divCeilFixed<int32_t>(3); }
CONTRACT(modulus)
{
    int8_t a = any<int8_t>("a"), b = any<int8_t>("b");
    vc::assume(b > 0);
    int8_t r = mod(a, b);
    vc::check(r >= 0 && r < b, "range");
    vc::check((a - r) % b == 0, "congruent");
}
CONTRACT(float_modulus)
{
    double a = vc::real("a", -30, 30), b = vc::positive("b", 0.5, 10);
    double r = float_mod(a, b);
    vc::le(0, r, "nonnegative");
    vc::check(r < b, "below_period");
    double k = (a - r) / b;
    vc::eq(k, std::floor(a / b), "whole_periods_removed");
}
CONTRACT(signs)
{
    double a = vc::real("a", -1, 1), t = vc::positive("t", 0.1, 0.5);
    vc::check((sign(a) > 0) == (a > 0) && (sign(a) < 0) == (a < 0), "sign");
    vc::check((signTol(a, t) > 0) == (a > t) && (signTol(a, t) < 0) == (a < -t), "signTol");
    vc::check((signP(a) > 0) == (a >= 0), "signP");
    vc::check((signM(a) < 0) == (a <= 0), "signM");
    vc::eq(signP(a) * signP(a), 1, "signP_unit");
    vc::eq(signM(a) * signM(a), 1, "signM_unit");
    vc::eq(sign(a) * sign(a) * a, a, "sign_unit_or_zero");
    vc::check(signTol(a, t) == 1 || signTol(a, t) == 0 || signTol(a, t) == -1, "signTol_values");
    vc::eq(sqr(a), a * a, "sqr");
    vc::eq(cube(a), a * a * a, "cube");
}

// intersection of two strictly increasing sequences
CONTRACT(sorted_intersection)
{
    int n = vc::choice("n", 0, 3), m = vc::choice("m", 0, 3), stopAfter = vc::choice("stopAfter", 0, 1) * 2;
    std::vector<int64_t> a(n), b(m);
    for (int i = 0; i < n; i++)
    {
        a[i] = any<int64_t>("a", i);
        if (i)
            vc::assume(a[i] > a[i - 1]);
    }
    for (int i = 0; i < m; i++)
    {
        b[i] = any<int64_t>("b", i);
        if (i)
            vc::assume(b[i] > b[i - 1]);
    }
    int64_t got[8];
    size_t p1[8], p2[8];
    int k = 0;
    bool r = iterateIdentical(a.begin(), a.end(), b.begin(), b.end(), [&](int64_t v, size_t i, size_t j) {
        got[k] = v, p1[k] = i, p2[k] = j;
        k++;
        return k == stopAfter;
    });
    int w = 0;
    bool stopped = false;
    for (int i = 0; i < n && !stopped; i++)
        for (int j = 0; j < m && !stopped; j++)
            if (vc::split(a[i] == b[j]))
            {
                vc::check(w < k, "every_common_element_visited", n, m);
                if (w < k)
                {
                    vc::check(got[w] == a[i], "value", n, m);
                    vc::ieq(p1[w], i, "position_first", n, m);
                    vc::ieq(p2[w], j, "position_second", n, m);
                }
                w++;
                stopped = w == stopAfter;
            }
    vc::ieq(w, k, "visited_exactly_common_elements", n, m);
    vc::check(r == stopped, "reports_early_stop", n, m);
}
