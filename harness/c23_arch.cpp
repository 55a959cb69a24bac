// C23: random histories of saves and loads on text and binary archives,
// against a shadow of what was saved under every name.
#include "mon.hpp"
#include <Eigen/Core>
#include <boost/filesystem.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>
using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef std::vector<VectorXd> Vs;
namespace fs = boost::filesystem;

struct Obj {
    bool list = false, vec = false;
    MatrixXd m;
    Vs l;
};
static double value(mon::Rng& r, bool text, int style)
{
    switch (style) {
    case 0: return r.gauss();
    case 1: return r.integer(-3, 3);
    case 2: return (r.coin() ? 1 : -1) * r.logrange(1e-300, 1e300);
    case 3: {
        static const double s[] = {0., -0., 5e-324, -5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, 1e-310, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 1.0 / 3, -1e22, 4503599627370497.5, 9007199254740993., 0.1, 1 + 2.220446049250313e-16};
        return s[r.integer(0, 14)];
    }
    case 4: {
        for (;;) {
            uint64_t u = r.u64();
            double d;
            std::memcpy(&d, &u, 8);
            if (text && !(std::fabs(d) < 1.79769e308)) // larger ones round up to infinity at fifteen digits
                continue;
            if (std::isnan(d))
                continue;
            return d;
        }
    }
    default: return !text && r.coin(0.2) ? (r.coin() ? 1.7976931348623157e308 : -1.7976931348623157e308) : r.range(-1, 1);
    }
}
static bool same(double a, double b, bool text)
{
    if (std::memcmp(&a, &b, 8) == 0)
        return true;
    if (!text)
        return false;
    if (std::isinf(a) || std::isinf(b) || std::signbit(a) != std::signbit(b))
        return false;
    return std::fabs((long double)a - b) <= 6e-15L * std::fabs((long double)a) + 2e-323L;
}
template <typename A, typename B>
static bool same(const A& a, const B& b, bool text)
{
    if (a.rows() != b.rows() || a.cols() != b.cols())
        return false;
    for (long i = 0; i < a.rows(); i++)
        for (long j = 0; j < a.cols(); j++)
            if (!same((double)a(i, j), (double)b(i, j), text))
                return false;
    return true;
}
template <typename M>
static std::string show(const M& m)
{
    std::ostringstream o;
    o.precision(17);
    o << m.rows() << "x" << m.cols() << ":";
    for (long i = 0; i < std::min<long>(m.size(), 6); i++)
        o << " " << m(i % m.rows(), i / m.rows());
    return o.str();
}
template <typename A>
static void history(mon::Rng& r, long c, const char* kind, bool text)
{
    std::string top = mon::S().scratch + mon::str("/arch_", kind, c);
    std::vector<std::string> dirs = {top + "/a", top + "/b/c", top + "/a/d"};
    std::vector<std::map<std::string, Obj>> shadow(dirs.size());
    std::vector<A> arch(dirs.begin(), dirs.end());
    std::vector<std::string> names = {"x", "samples", "matrixL", "x_1", "alpha", "X"};
    int n = r.integer(3, 25);
    std::string hist;
    for (int s = 0; s < n; s++) {
        int d = r.integer(0, (int)dirs.size() - 1);
        std::string name = r.pick(names);
        Obj o;
        int style = r.integer(0, 5);
        o.list = r.coin(0.45);
        if (o.list) {
            int k = r.coin(0.3) ? 1 : r.integer(1, 40), dim = r.integer(1, 8);
            bool ragged = r.coin(0.2);
            if (r.coin(0.003)) { // a long list
                k = r.integer(30000, 80000);
                dim = 1;
                mon::event("long_list");
            }
            for (int i = 0; i < k; i++) {
                VectorXd v(ragged ? r.integer(0, 8) : dim);
                if (v.size() == 0)
                    mon::event("empty_vector_in_list");
                for (long j = 0; j < v.size(); j++)
                    v(j) = value(r, text, style);
                o.l.push_back(v);
            }
            hist += mon::str(" save(", d, name, ",list", k, ")");
        }
        else {
            long rows = r.coin(0.3) ? 1 : r.integer(1, 30), cols = r.coin(0.4) ? 1 : r.integer(1, 12);
            if (!text && r.coin(0.05)) { // no element
                (r.coin() ? rows : cols) = 0;
                mon::event("empty_matrix");
            }
            if (r.coin(0.004)) {
                rows = r.coin() ? 1 : r.integer(100, 300);
                cols = rows == 1 ? r.integer(5000, 20000) : r.integer(1, 300);
                mon::event("large_matrix");
            }
            o.vec = cols == 1;
            o.m = MatrixXd(rows, cols);
            for (long i = 0; i < rows; i++)
                for (long j = 0; j < cols; j++)
                    o.m(i, j) = value(r, text, style);
            hist += mon::str(" save(", d, name, ",", rows, "x", cols, ")");
        }
        bool over = shadow[d].count(name);
        if (over)
            mon::event("overwritten name");
        const A& a = arch[d];
        if (o.list)
            a.save(o.l, name);
        else if (o.vec && r.coin()) {
            VectorXd v = o.m.col(0);
            a.save(v, name);
        }
        else if (r.coin(0.2)) { // an expression
            MatrixXd big = MatrixXd::Constant(o.m.rows() + 2, o.m.cols() + 2, 7.);
            big.block(1, 1, o.m.rows(), o.m.cols()) = o.m;
            a.save(big.block(1, 1, o.m.rows(), o.m.cols()), name);
        }
        else
            a.save(o.m, name);
        mon::Hash h;
        h.add(text).add(o.list).add(o.m.rows()).add(o.m.cols()).add(o.l.size());
        if (o.list)
            for (auto& v : o.l)
                h.addv(v);
        else
            for (long i = 0; i < o.m.size(); i++)
                h.addd(o.m.data()[i]);
        mon::distinct(h.h);
        shadow[d][name] = o;
        // whatever was saved before is still there
        for (size_t k = 0; k < dirs.size(); k++)
            for (auto& e : shadow[k]) {
                bool now = k == (size_t)d && e.first == name;
                if (!now && !r.coin(0.3))
                    continue;
                A other(dirs[k]); // another object for the same directory
                const A& from = r.coin() ? other : arch[k];
                mon::check(from.directory() == dirs[k] && fs::exists(from.fname(e.first)), "archive-file", "directory() or fname() is wrong");
                std::string w = mon::str(kind, " archive, object ", e.first, " in directory ", k, now ? " just saved" : " saved earlier", ":", hist.substr(hist.size() > 300 ? hist.size() - 300 : 0));
                mon::evaluation();
                if (e.second.list) {
                    mon::event("list loaded");
                    Vs l;
                    if (r.coin()) // not empty
                        l.assign(r.integer(1, 4), VectorXd::Ones(3));
                    from.load(l, e.first);
                    if (!mon::check(l.size() == e.second.l.size(), "archive-list-size", mon::str(l.size(), " vectors loaded instead of ", e.second.l.size(), " ", w)))
                        return;
                    for (size_t i = 0; i < l.size(); i++)
                        if (!mon::check(same(l[i], e.second.l[i], text), "archive-list-value", mon::str("vector ", i, " loaded as ", show(l[i]), " instead of ", show(e.second.l[i]), " ", w)))
                            return;
                }
                else {
                    mon::event(e.second.m.cols() == 1 ? "column loaded" : e.second.m.rows() == 1 ? "row loaded" : "matrix loaded");
                    bool ok;
                    std::string got;
                    if (e.second.vec && r.coin()) {
                        VectorXd v = VectorXd::Ones(r.integer(0, 5));
                        from.load(v, e.first);
                        ok = same(v, e.second.m, text);
                        got = show(v);
                    }
                    else {
                        MatrixXd m = MatrixXd::Ones(r.integer(0, 5), 2);
                        from.load(m, e.first);
                        ok = same(m, e.second.m, text);
                        got = show(m);
                    }
                    if (!mon::check(ok, "archive-matrix", mon::str("loaded ", got, " instead of ", show(e.second.m), " ", w)))
                        return;
                }
            }
    }
    // nothing but what was saved
    size_t files = 0, want = 0;
    for (auto& m : shadow)
        want += m.size();
    if (fs::exists(top))
        for (fs::recursive_directory_iterator i(top), e; i != e; ++i)
            if (fs::is_regular_file(i->path()))
                files++;
    mon::check(files == want, "archive-files", mon::str(files, " files for ", want, " saved objects"));
    mon::sample(mon::str(kind, hist.substr(0, 200)));
    fs::remove_all(top);
}
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    if (mon::S().scratch.empty())
        mon::S().scratch = "/tmp";
    mon::run_cases([&](long c, mon::Rng& r) {
        if (c % 2)
            history<limbo::serialize::BinaryArchive>(r, c, "binary", false);
        else
            history<limbo::serialize::TextArchive>(r, c, "text", true);
    });
    return mon::finish();
}
