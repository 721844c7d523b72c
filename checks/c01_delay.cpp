// C01: the time-delay Kalman filter against the exact conditional Gaussian of
// the whole trajectory, for arbitrary arrival schedules of late measurements.
#include <Eigen/Dense>
#include <cmath>
#include <stdexcept>

#include "core/sim.hpp"
#include "kalman_filter/time_delay_kalman_filter.hpp"

using namespace sim;
using Eigen::MatrixXd;
using Eigen::VectorXd;

namespace
{

MatrixXd randn(Rng & r, int m, int n)
{
  MatrixXd a(m, n);
  for (int i = 0; i < m; ++i) {
    for (int j = 0; j < n; ++j) {
      a(i, j) = r.normal();
    }
  }
  return a;
}

MatrixXd random_spd(Rng & r, int n, double scale, double floor)
{
  const MatrixXd a = randn(r, n, n);
  return scale * (a * a.transpose() / n) + floor * MatrixXd::Identity(n, n);
}

struct Step {MatrixXd A, Q; VectorXd b;};
struct Meas {int step; MatrixXd C, R; VectorXd y;};

// Everything that is known about the trajectory, conditioned in one piece.
struct Reference
{
  VectorXd x0;
  MatrixXd P0;
  std::vector<Step> steps;
  std::vector<Meas> meas;

  // mean and covariance of states [first, last]
  void posterior(int first, VectorXd & mean, MatrixXd & cov) const
  {
    const int d = x0.size(), k = static_cast<int>(steps.size());
    const int n = (k + 1) * d;
    // z = (x_0, w_0, ..., w_{k-1});  x_i = F_i z + c_i
    MatrixXd S = MatrixXd::Zero(n, n);
    S.block(0, 0, d, d) = P0;
    std::vector<MatrixXd> F(k + 1);
    std::vector<VectorXd> c(k + 1);
    F[0] = MatrixXd::Zero(d, n);
    F[0].block(0, 0, d, d).setIdentity();
    c[0] = x0;
    for (int i = 0; i < k; ++i) {
      S.block((i + 1) * d, (i + 1) * d, d, d) = steps[i].Q;
      F[i + 1] = steps[i].A * F[i];
      F[i + 1].block(0, (i + 1) * d, d, d).setIdentity();
      c[i + 1] = steps[i].A * c[i] + steps[i].b;
    }
    int rows = 0;
    for (const auto & m : meas) {
      rows += m.y.size();
    }
    VectorXd z = VectorXd::Zero(n);
    MatrixXd Z = S;
    if (rows > 0) {
      MatrixXd H = MatrixXd::Zero(rows, n), R = MatrixXd::Zero(rows, rows);
      VectorXd e(rows);
      int at = 0;
      for (const auto & m : meas) {
        const int h = m.y.size();
        H.block(at, 0, h, n) = m.C * F[m.step];
        R.block(at, at, h, h) = m.R;
        e.segment(at, h) = m.y - m.C * c[m.step];
        at += h;
      }
      const MatrixXd I = H * S * H.transpose() + R;
      const Eigen::LDLT<MatrixXd> ldlt(I);
      const MatrixXd SH = S * H.transpose();
      z = SH * ldlt.solve(e);
      Z = S - SH * ldlt.solve(SH.transpose());
    }
    const int w = k - first + 1;
    mean.resize(w * d);
    cov.resize(w * d, w * d);
    for (int i = 0; i < w; ++i) {        // newest first
      mean.segment(i * d, d) = F[k - i] * z + c[k - i];
      for (int j = 0; j < w; ++j) {
        cov.block(i * d, j * d, d, d) = F[k - i] * Z * F[k - j].transpose();
      }
    }
  }
};

class C01 : public Check
{
public:
  std::string id() const override {return "C01";}
  std::string rule() const override
  {
    return "one run = one random linear system, one arrival schedule of predictions and late "
           "measurements by several concurrent sources; non-trivial: at least one measurement "
           "that was at least one step late was fused";
  }
  std::string real_components() const override
  {
    return "kalman_filter: TimeDelayKalmanFilter and the functions it uses";
  }
  std::string stub_components() const override
  {
    return "sensors and network (delay, loss, duplication, reordering, bursts) are simulated";
  }
  std::vector<std::string> assumptions() const override
  {
    return {"delays reach back at most to the filter's start (before it there is no state)",
            "comparison within 1e-6 standard deviations plus 1e-9 relative, systems with "
            "condition numbers below about 1e6"};
  }
  std::vector<std::string> required_probes() const override
  {
    return {"late_fused", "refused_too_old", "same_time_arrivals", "duplicate_fused",
            "refused_singular"};
  }
  u64 quick_runs() const override {return 15000;}
  u64 thorough_runs() const override {return 400000;}
  double run_timeout_s() const override {return 60;}

  Plan generate(u64 seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.check = id();
    p.seed = seed;
    p.cfg["fifo"] = 0;
    const int d = static_cast<int>(r.range(1, 5));
    const int N = static_cast<int>(r.range(1, thorough ? 20 : 12));
    p.cfg["dim"] = d;
    p.cfg["window"] = N;
    p.cfg["sources"] = static_cast<double>(r.range(1, 4));
    p.cfg["identity"] = r.chance(0.15);       // A = I: a static state
    p.cfg["noq"] = r.chance(0.15);            // no process noise
    p.cfg["qstep"] = r.chance(0.5);           // process noise varies per step
    p.cfg["deg"] = r.chance(0.08);            // degenerate: known state, exact sensor
    const int T = static_cast<int>(r.range(3, thorough ? 60 : 30));
    const double pm = r.uniform(0.1, 1.5);
    const double plate = r.uniform(0, 1), pold = r.chance(0.3) ? 0.15 : 0.03;
    const double pdup = r.chance(0.5) ? 0.1 : 0.0;
    i64 t = 0;
    for (int k = 0; k < T; ++k) {
      t += r.chance(0.1) ? 0 : 10000000;
      p.ops.push_back({t, "predict", {static_cast<double>(r.below(1u << 30))}, ""});
      int n = 0;
      for (double q = pm; q > 0; q -= 1) {
        n += r.chance(q) ? 1 : 0;
      }
      if (r.chance(0.05)) {
        n += 4;           // a burst after a partition
      }
      for (int i = 0; i < n; ++i) {
        i64 delay = r.chance(plate) ? r.range(0, std::min(k + 1, N)) : 0;
        if (r.chance(pold)) {
          delay = N + r.range(0, 3);
        }
        const i64 at = t + (r.chance(0.5) ? 0 : r.range(0, 9999999));
        const Op o{at, "meas",
          {static_cast<double>(delay), static_cast<double>(r.below(1u << 30)),
            static_cast<double>(r.below(4))}, ""};
        p.ops.push_back(o);
        if (r.chance(pdup)) {
          Op q = o;
          q.t += r.range(0, 2);
          q.a.push_back(1);
          p.ops.push_back(q);
        }
      }
    }
    return p;
  }

  Outcome run(const Plan & plan, bool trace) override
  {
    Outcome o;
    o.nontrivial = false;
    World w(plan.seed);
    w.tracing = trace;
    w.fifo = plan.get("fifo") != 0;
    const int d = static_cast<int>(plan.get("dim"));
    const int N = static_cast<int>(plan.get("window"));
    const bool deg = plan.get("deg") != 0;
    Rng g = keyed(plan.seed, 101);
    Reference ref;
    ref.x0 = randn(g, d, 1) * 3;
    ref.P0 = deg ? MatrixXd::Zero(d, d) : random_spd(g, d, g.uniform(0.1, 5), 0.05);
    std::unique_ptr<TimeDelayKalmanFilter> f;
    const MatrixXd Abase = MatrixXd::Identity(d, d) + 0.25 * randn(g, d, d) / std::sqrt(d);
    const MatrixXd Qbase = random_spd(g, d, 0.3, 0.0);

    auto snapshot = [&]() {
        VectorXd x(N * d + d * d);
        for (int i = 0; i < N; ++i) {
          x.segment(i * d, d) = f->getX(i);
        }
        const MatrixXd P = f->getLatestP();
        x.tail(d * d) = Eigen::Map<const VectorXd>(P.data(), d * d);
        return x;
      };
    auto compare = [&](const char * after) {
        const int k = static_cast<int>(ref.steps.size());
        const int first = std::max(0, k - N + 1);
        VectorXd mean;
        MatrixXd cov;
        ref.posterior(first, mean, cov);
        const VectorXd x = f->getLatestX();
        const MatrixXd P = f->getLatestP();
        if (x.size() != d || P.rows() != d || P.cols() != d) {
          w.fail("shape", "the filter changed the dimension of its estimate");
          return;
        }
        double scale = 1e-9 * (1 + ref.P0.norm());
        for (int i = 0; i < d; ++i) {
          const double tol = 1e-6 * std::sqrt(std::max(0.0, cov(i, i)) + 1) + 1e-8 * std::abs(mean(i));
          if (!(std::abs(x(i) - mean(i)) <= tol)) {
            w.fail(
              "estimate", fmt(
                "after %s: component %d is %.12g, the in-order optimum is %.12g (step %d)", after,
                i, x(i), mean(i), k));
            return;
          }
        }
        for (int i = 0; i < d; ++i) {
          for (int j = 0; j < d; ++j) {
            const double s = std::sqrt(std::max(0.0, cov(i, i) * cov(j, j)));
            if (!(std::abs(P(i, j) - cov(i, j)) <= 1e-6 * (s + 1) + scale)) {
              w.fail(
                "covariance", fmt(
                  "after %s: P(%d,%d) is %.12g, the in-order optimum is %.12g (step %d)", after, i,
                  j, P(i, j), cov(i, j), k));
              return;
            }
          }
        }
        for (int i = 0; i < k - first + 1; ++i) {
          const VectorXd xi = f->getX(i);
          for (int c = 0; c < d; ++c) {
            const double m = mean(i * d + c);
            const double tol = 1e-6 * std::sqrt(std::max(0.0, cov(i * d + c, i * d + c)) + 1) +
              1e-8 * std::abs(m);
            if (!(xi.size() == d && std::abs(xi(c) - m) <= tol)) {
              w.fail(
                "smoothed", fmt(
                  "after %s: state %d steps back, component %d is %.12g, the smoothed optimum is "
                  "%.12g (step %d)", after, i, c, xi(c), m, k));
              return;
            }
          }
        }
      };

    auto apply = [&](const Op & op) {
        if (w.stop) {
          return;
        }
        if (op.kind == "predict") {
          Rng r(static_cast<u64>(op.a[0]) * 7919 + 3);
          Step s;
          s.A = plan.get("identity") != 0 ? MatrixXd::Identity(d, d) :
            MatrixXd(Abase + 0.05 * randn(r, d, d));
          // keep long runs bounded
          const double norm = s.A.jacobiSvd().singularValues()(0);
          if (norm > 1.05) {
            s.A *= 1.05 / norm;
          }
          s.Q = (deg || plan.get("noq") != 0) ? MatrixXd::Zero(d, d) : MatrixXd(
            Qbase * (plan.get("qstep") != 0 ? r.uniform(0, 2) : 1.0));
          s.b = randn(r, d, 1) * 0.3;
          f->predict(s.A * f->getLatestX() + s.b, s.A, s.Q);
          ref.steps.push_back(s);
          w.note("predict %zu", ref.steps.size());
          compare("predict");
        } else {
          const int k = static_cast<int>(ref.steps.size());
          int delay = static_cast<int>(op.a[0]);
          Rng r(static_cast<u64>(op.a[1]) * 104729 + 11);
          Meas m;
          const int h = static_cast<int>(r.range(1, std::min(3, d + 1)));
          m.C = randn(r, h, d);
          if (r.chance(0.5)) {
            m.C.setZero();
            for (int i = 0; i < h; ++i) {
              m.C(i, r.below(d)) = 1;
            }
          }
          m.R = deg ? MatrixXd::Zero(h, h) : random_spd(r, h, r.uniform(0.01, 2), 0.02);
          m.y = randn(r, h, 1) * 3;
          const bool too_old = delay >= N;
          if (!too_old && delay > k) {
            delay = k;            // nothing before the start
          }
          m.step = k - delay;
          const VectorXd before = snapshot();
          bool refused = false;
          try {
            f->update(m.y, m.C, m.R, delay);
          } catch (const std::invalid_argument &) {
            refused = true;
          }
          w.note("meas delay %d of %d: %s", delay, k, refused ? "refused" : "fused");
          if (too_old || deg) {
            if (!refused) {
              w.fail(
                too_old ? "accepted-too-old" : "accepted-singular", fmt(
                  "a measurement %d steps old (window %d) was not refused", delay, N));
              return;
            }
            w.count(too_old ? "refused_too_old" : "refused_singular");
            const VectorXd after = snapshot();
            if (!(before.array() == after.array()).all()) {
              w.fail("refused-changed", "a refused measurement changed the filter");
            }
            return;
          }
          if (refused) {
            w.fail("refused-valid", fmt("a measurement %d steps old (window %d) was refused", delay, N));
            return;
          }
          ref.meas.push_back(m);
          w.count("fused");
          if (delay > 0) {
            w.count("late_fused");
            o.nontrivial = true;
          }
          if (op.a.size() > 3) {
            w.count("duplicate_fused");
          }
          compare("update");
        }
      };

    const int S = static_cast<int>(plan.get("sources"));
    w.spawn(
      "filter", [&] {
        f = std::make_unique<TimeDelayKalmanFilter>(ref.x0, ref.P0, N);
        compare("start");
        return 0;
      });
    w.run_until(0);
    // every source is a task of its own; the scheduler decides who goes first
    std::map<i64, int> same;
    for (const auto & op : plan.ops) {
      if (++same[op.t] == 2) {
        w.count("same_time_arrivals");
      }
    }
    for (int s = 0; s <= S && !w.stop; ++s) {
      w.spawn(
        s == 0 ? "predictor" : fmt("source%d", s), [&, s] {
          for (const auto & op : plan.ops) {
            const bool mine = op.kind == "predict" ? s == 0 :
              (s > 0 && static_cast<int>(op.a[2]) % S == s - 1);
            if (!mine) {
              continue;
            }
            w.sleep_until(op.t);
            if (w.stop) {
              return 0;
            }
            apply(op);
            w.yield();
          }
          return 0;
        });
    }
    w.run_idle();
    for (auto & p : w.processes) {
      if (!p->exit_error.empty() && w.violations.empty()) {
        w.fail("terminated", p->exit_error);
      }
    }
    if (f) {
      const VectorXd x = f->getLatestX();
      for (int i = 0; i < x.size(); ++i) {
        w.hash_double(x(i));
      }
      o.state_hash = w.hash;
    }
    collect(w, o);
    return o;
  }
};

}  // namespace

int main(int argc, char ** argv)
{
  C01 c;
  return harness_main(argc, argv, c);
}
