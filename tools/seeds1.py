HDR = '#include <cstdio>\n#include <cmath>\n#include <thread>\n#include <vector>\n#include <atomic>\nusing namespace spectator;\nstatic int bad = 0;\n#define CHECK(c) do { if (!(c)) { std::printf("FAILED %s\\n", #c); bad = 1; } } while (0)\n'
def inc(*h): return "".join('#include "%s"\n' % x for x in h)
SEEDS = [
 dict(id="timer-square-overflow", property="P15", srcs=["meters"],
  edits=[["spectator/timer.cc", "static_cast<double>(ns) * ns", "static_cast<double>(ns * ns)"]],
  needs="a recorded duration above about 3.04 seconds, whose square in ns^2 does not fit 64 bits",
  breaks="totalOfSquares of a timer is computed in 64-bit integers and overflows",
  demo=inc("spectator/timer.h", "spectator/measurement.h") + HDR + '''
int main() {
  Timer t{Id("t", Tags{})};
  t.Record(absl::Seconds(10));
  std::vector<Measurement> ms;
  t.Measure(&ms);
  bool found = false;
  for (auto& m : ms) {
    if (m.id.GetTags().at(intern_str("statistic")) == intern_str("totalOfSquares")) { found = true; CHECK(std::abs(m.value - 100.0) < 1e-6); }
  }
  CHECK(found);
  return bad;
}
'''),
 dict(id="counter-reset-after-report", property="P14", srcs=["meters"], race=True, opt="-O2",
  edits=[["spectator/counter.cc", "  if (count > 0) {\n    if (!count_id_) {", "  if (count > 0) {\n    count_.store(0.0, std::memory_order_relaxed);\n    if (!count_id_) {"]],
  needs="an increment by another thread between the exchange and the store of a report",
  breaks="a report overwrites the counter once more after taking its value, losing increments made in between",
  demo=inc("spectator/counter.h", "spectator/measurement.h") + HDR + '''
int main() {
  Counter c{Id("c", Tags{})};
  std::atomic<bool> go{false}, stop{false};
  constexpr int T = 4; constexpr long N = 3000000;
  std::vector<std::thread> ts;
  std::atomic<int> done{0};
  for (int i = 0; i < T; ++i) ts.emplace_back([&] { while (!go) {} for (long k = 0; k < N; ++k) c.Increment(); ++done; });
  double sum = 0;
  std::vector<Measurement> ms;
  go = true;
  while (done < T) { ms.clear(); c.Measure(&ms); for (auto& m : ms) sum += m.value; }
  for (auto& t : ts) t.join();
  ms.clear(); c.Measure(&ms); for (auto& m : ms) sum += m.value;
  std::printf("%.0f of %.0f\\n", sum, double(T) * N);
  CHECK(sum == double(T) * N);
  return bad;
}
'''),
 dict(id="gauge-ttl-unclamped", property="P12", srcs=["meters"],
  edits=[["spectator/gauge.cc", "  if (ttl < kMinTtl) {", "  if (ttl < absl::ZeroDuration()) {"]],
  needs="a gauge whose ttl is set below 5 seconds and which is not updated for longer than that ttl",
  breaks="the minimum gauge ttl of 5 seconds is not enforced for positive ttls",
  demo=inc("spectator/gauge.h", "spectator/measurement.h") + HDR + '''
int main() {
  Gauge g{Id("g", Tags{}), absl::Seconds(60)};
  g.SetTtl(absl::Seconds(1));
  g.Set(1.0);
  CHECK(!g.HasExpired(g.Updated() + 2000000000L));
  CHECK(!g.HasExpired(g.Updated() + 5000000000L));
  CHECK(g.HasExpired(g.Updated() + 5000000001L));
  return bad;
}
'''),
 dict(id="registry-size-timers", property="P11", srcs=["registry"], ska=True,
  edits=[["spectator/registry.h", "    std::tie(expired, count) = timers_.remove_expired(meter_ttl);\n    total_expired += expired;\n    total_count += count;\n    return", "    std::tie(expired, count) = timers_.remove_expired(meter_ttl);\n    total_expired += expired;\n    total_count += expired;\n    return"]],
  needs="an expiry sweep over a registry with timers that are not idle",
  breaks="the sweep's total counts only the expired timers, not all of them",
  demo=inc("spectator/registry.h") + HDR + '''
int main() {
  detail::all_meters m;
  m.insert_timer(Id("t", Tags{}));
  m.insert_timer(Id("t2", Tags{}));
  m.insert_counter(Id("c", Tags{}));
  auto r = m.remove_expired(1000000000000L);
  CHECK(r.first == 0);
  CHECK(r.second == 3);
  return bad;
}
'''),
]
