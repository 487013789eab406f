import json
B=[];S="spectator/"
def bad(name,file,old,new,checks,**k): B.append(dict(name=name,file=S+file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,file,old,new,checks="P12 P14 P15",**k): B.append(dict(name="q-"+name,file=S+file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
# ---- breakages
bad("ctr-load-store","counter.cc","count_.exchange(0.0, std::memory_order_relaxed);","count_.load(std::memory_order_relaxed);\n  if (count > 0) count_.store(0.0);","P14")
bad("ctr-reset-later","counter.cc","    results->emplace_back(*count_id_, count);","    results->emplace_back(*count_id_, count);\n    count_.store(0.0);","P14 P15")
bad("ctr-neg","counter.cc","if (!(delta >= 0))","if (delta < 0)","P15")
bad("ctr-neg2","counter.cc","if (!(delta >= 0))","if (delta != delta)","P15")
bad("ctr-stat-override","counter.cc","WithDefaultStat(refs().count())","WithStat(refs().count())","P15")
bad("ctr-order-update","counter.cc","  Update();\n\n  if (!(delta >= 0)) {\n    return;\n  }\n","  if (!(delta >= 0)) {\n    return;\n  }\n  if (delta > 0) Update();\n","P12")
bad("timer-max-secs","timer.cc","mx / 1e9","mx / 1e6","P15")
bad("timer-sq","timer.cc","t_sq / 1e18","t_sq / 1e9","P15")
bad("timer-max-noreset","timer.cc","auto mx = max_.exchange(0, std::memory_order_relaxed);","auto mx = max_.load(std::memory_order_relaxed);","P15 P14")
bad("timer-sq-int","timer.cc","static_cast<double>(ns) * ns","static_cast<double>(ns * ns)","P15")
bad("timer-zero","timer.cc","if (ns >= 0)","if (ns > 0)","P15")
bad("timer-us","timer.cc","amount / absl::Nanoseconds(1)","amount / absl::Microseconds(1) * 1000","P15")
bad("timer-rounded","timer.cc","int64_t ns = amount / absl::Nanoseconds(1);","int ns = amount / absl::Nanoseconds(1);","P15")
bad("timer-total-id","timer.cc","emplace_back(st->totalSq, t_sq_secs)","emplace_back(st->max, t_sq_secs)","P15")
bad("ds-max","dist_summary.cc","update_max(&max_, amount);","max_.store(amount);","P14 P15")
bad("ds-max-racy","dist_summary.cc","update_max(&max_, amount);","if (amount > max_.load()) max_.store(amount);","P14 P15")
bad("ds-early-ret","dist_summary.cc","  if (cnt == 0) {\n    return;\n  }\n","  if (cnt == 0 || total_.load() == 0.0) {\n    return;\n  }\n","P15")
bad("ds-count-late","dist_summary.cc","static_cast<double>(cnt)","static_cast<double>(count_.load())","P15 P14")
bad("distids-swap","dist_stats.h","totalSq{base.WithStat(refs().totalOfSquares())},\n        max{base.WithStat(refs().max())}","totalSq{base.WithStat(refs().max())},\n        max{base.WithStat(refs().totalOfSquares())}","P15")
bad("distids-default","dist_stats.h","total{base.WithStat(total_stat)}","total{base.WithDefaultStat(total_stat)}","P15")
bad("gauge-ttl-min","gauge.cc","ttl < kMinTtl","ttl <= absl::ZeroDuration()","P12")
bad("gauge-expired-ge","gauge.cc","ago > ttl_nanos_","ago >= ttl_nanos_","P12")
bad("gauge-noreset","gauge.cc","value = value_.exchange(kNAN, std::memory_order_relaxed);","value = value_.load(std::memory_order_relaxed);","P15")
bad("gauge-loadstore","gauge.cc","value = value_.exchange(kNAN, std::memory_order_relaxed);","value = value_.load(std::memory_order_relaxed);\n    value_.store(kNAN);","P14")
bad("gauge-always-reset","gauge.cc","value = value_.load(std::memory_order_relaxed);\n  }\n\n","value = value_.exchange(kNAN, std::memory_order_relaxed);\n  }\n\n","P15")
bad("gauge-setttl-update","gauge.cc","  this->ttl_nanos_ = get_ttl(ttl);","  this->ttl_nanos_ = absl::ToInt64Nanoseconds(ttl);","P12")
bad("gauge-nan-skip","gauge.cc","  Update();\n\n  value_.store(value","  if (value != 0) Update();\n\n  value_.store(value","P12")
bad("mg-reset0","max_gauge.cc","value_.exchange(kMinValue","value_.exchange(0.0","P15")
bad("mg-min","max_gauge.cc","std::numeric_limits<double>::lowest()","std::numeric_limits<double>::min()","P15")
bad("mg-noupdate","max_gauge.cc","  Meter::Update();\n","","P12")
bad("mg-default","max_gauge.cc","WithStat(refs().max())","WithDefaultStat(refs().max())","P15")
bad("mc-baseline-cond","monotonic_counter.cc","  prev_value_.store(value, std::memory_order_relaxed);\n  if (delta > 0) {\n","  if (delta > 0) {\n    prev_value_.store(value, std::memory_order_relaxed);\n","P15")
bad("mc-reread","monotonic_counter.cc","prev_value_.store(value, std::memory_order_relaxed);\n","prev_value_.store(value_.load(), std::memory_order_relaxed);\n","P14")
bad("mc-neg","monotonic_counter.cc","if (delta > 0)","if (delta != 0)","P15")
bad("mc-delta-original","monotonic_counter.cc","auto delta = value - prev_value_.load(std::memory_order_relaxed);","auto delta = Delta();","P14")
bad("mcu-wrap","monotonic_counter_uint.cc","kMax - prev + curr + 1","kMax - prev + curr","P15")
bad("mcu-init","monotonic_counter_uint.cc","  init_.store(true, std::memory_order_relaxed);\n\n  if (delta > 0) {","  if (delta > 0) {\n    init_.store(true);","P15")
bad("mcu-noinit","monotonic_counter_uint.cc","init_.load(std::memory_order_relaxed) ? delta_between(prev, value) : kNaN","delta_between(prev, value)","P15")
bad("ms-lock-split","monotonic_sampled.cc","    prev_value_ = value_;\n    prev_ts_ = ts_;\n  }\n\n  if (sampled","  }\n  {\n    absl::MutexLock lock(&mutex_);\n    prev_value_ = value_;\n    prev_ts_ = ts_;\n  }\n\n  if (sampled","P14")
bad("ms-ts-units","monotonic_sampled.cc","auto delta_t = (ts_ - prev_ts_) / 1e9;\n    sampled","auto delta_t = (ts_ - prev_ts_) / 1e6;\n    sampled","P15")
bad("ms-ooo","monotonic_sampled.cc","ts_nanos < ts_","ts_nanos < prev_ts_","P15")
bad("ms-prev","monotonic_sampled.cc","if (std::isnan(prev_value_)) {","{","P15")
bad("ag-units","age_gauge.h","(now - last_success) / 1e9","(now - last_success) / 1e6","P15")
bad("ag-int","age_gauge.h","static_cast<double>(now - last_success) / 1e9","static_cast<double>((now - last_success) / 1000000000)","P15")
bad("add-double-orig","atomicnumber.h","  double current;\n  do {\n    current = n->load(std::memory_order_relaxed);\n  } while (!n->compare_exchange_weak(current, current + delta));","  double current;\n  double new_value;\n  do {\n    current = n->load(std::memory_order_relaxed);\n    new_value = n->load(std::memory_order_relaxed) + delta;\n  } while (!n->compare_exchange_weak(current, new_value));","P14")
bad("add-double-once","atomicnumber.h","  } while (!n->compare_exchange_weak(current, current + delta));","    if (n->compare_exchange_weak(current, current + delta)) return;\n  } while (false);","P14")
bad("add-double-store","atomicnumber.h","  } while (!n->compare_exchange_weak(current, current + delta));","  } while (false);\n  n->store(current + delta);","P14")
bad("upd-max-break","atomicnumber.h","while (value > current && !n->compare_exchange_weak(current, value));","while (value > current && !n->compare_exchange_weak(current, value) && value > 0);","P14")
bad("upd-max-stale","atomicnumber.h","  T current;\n  do {\n    current = n->load(std::memory_order_relaxed);\n  } while (value > current && !n->compare_exchange_weak(current, value));","  T current = n->load();\n  if (value > current) {\n    while (!n->compare_exchange_weak(current, value)) {}\n  }","P14")
bad("meter-exp","registry.h","updated_ago > meter_ttl","updated_ago >= meter_ttl","P12")
bad("age-exp","registry.h","                                       int64_t /* meter_ttl */) -> bool {\n  return false;","                                       int64_t meter_ttl) -> bool {\n  return meter_ttl < 0;","P12")
bad("rm-count","registry.h","        if (is_meter_expired(now, *it->second, meter_ttl)) {\n          it = meters_.erase(it);\n          ++expired;","        if (is_meter_expired(now, *it->second, meter_ttl)) {\n          it = meters_.erase(it);","P12 ")
bad("rm-skip","registry.h","          it = meters_.erase(it);\n          ++expired;","          it = meters_.erase(it);\n          ++expired;\n          if (it != end) ++it;","P12")
bad("meas-noexp","registry.h","      if (!is_meter_expired(now, *m, meter_ttl)) {\n        m->Measure(res);\n      }","      m->Measure(res);","P12")
bad("reg-ttl-meas","registry.cc","all_meters_.measure(meter_ttl_)","all_meters_.measure(meter_ttl_ * 2)","P12")
# ---- behaviour-preserving
quiet("ctr-early","counter.cc","  if (count > 0) {\n    if (!count_id_) {\n      count_id_ =\n          std::make_unique<Id>(MeterId().WithDefaultStat(refs().count()));\n    }\n    results->emplace_back(*count_id_, count);\n  }","  if (count <= 0) {\n    return;\n  }\n  if (!count_id_) {\n    auto id = MeterId().WithDefaultStat(refs().count());\n    count_id_ = std::make_unique<Id>(std::move(id));\n  }\n  results->push_back(Measurement{*count_id_, count});")
quiet("ctr-guard","counter.cc","  Update();\n\n  if (!(delta >= 0)) {\n    return;\n  }\n  add_double(&count_, delta);","  Update();\n  if (delta >= 0) {\n    add_double(&count_, delta);\n  }")
quiet("ctr-inc","counter.cc","Add(1.0);","Add(1);")
quiet("ctr-nan","counter.cc","  if (!(delta >= 0)) {","  if (std::isnan(delta) || delta < 0) {")
quiet("ctr-nonzero","counter.cc","  if (!(delta >= 0)) {","  if (!(delta > 0)) {")
quiet("timer-helper","timer.cc","void Timer::Measure(","static auto to_secs(int64_t ns) -> double { return static_cast<double>(ns) / 1e9; }\n\nvoid Timer::Measure(",edits=[["spectator/timer.cc","void Timer::Measure(","static auto to_secs(int64_t ns) -> double { return static_cast<double>(ns) / 1e9; }\n\nvoid Timer::Measure("],["spectator/timer.cc","total / 1e9","to_secs(total)"],["spectator/timer.cc","mx / 1e9","to_secs(mx)"]])
quiet("timer-reorder","timer.cc","    count_.fetch_add(1, std::memory_order_relaxed);\n    total_.fetch_add(ns, std::memory_order_relaxed);","    total_ += ns;\n    ++count_;")
quiet("timer-secs","timer.cc","total / 1e9","total / 1000000000.0")
quiet("timer-mul","timer.cc","t_sq / 1e18","t_sq / 1e9 / 1e9")
quiet("timer-early","timer.cc","  if (ns >= 0) {","  if (ns < 0) {\n    return;\n  }\n  {")
quiet("timer-ns","timer.cc","int64_t ns = amount / absl::Nanoseconds(1);","int64_t ns = absl::ToInt64Nanoseconds(amount);")
quiet("ds-loop","dist_summary.cc","  results->emplace_back(st->count, static_cast<double>(cnt));\n","  const auto n = static_cast<double>(cnt);\n  results->emplace_back(st->count, n);\n")
quiet("ds-neg","dist_summary.cc","  if (amount >= 0) {","  if (!(amount < 0) && !std::isnan(amount)) {",edits=[["spectator/dist_summary.cc","  if (amount >= 0) {","  if (!(amount < 0) && !std::isnan(amount)) {"],["spectator/dist_summary.cc","namespace spectator {","#include <cmath>\nnamespace spectator {"]])
quiet("gauge-tern","gauge.cc","  double value;\n  if (HasExpired(now)) {\n    value = value_.exchange(kNAN, std::memory_order_relaxed);\n  } else {\n    value = value_.load(std::memory_order_relaxed);\n  }","  const auto value = HasExpired(now) ? value_.exchange(kNAN) : value_.load();")
quiet("gauge-ttl","gauge.cc","  if (ttl < kMinTtl) {\n    return kMinTtlNanos;\n  }\n  return static_cast<int64_t>(absl::ToInt64Nanoseconds(ttl));","  return std::max(kMinTtlNanos, static_cast<int64_t>(absl::ToInt64Nanoseconds(ttl)));")
quiet("gauge-ttl2","gauge.cc","  if (ttl < kMinTtl) {\n    return kMinTtlNanos;\n  }\n  return static_cast<int64_t>(absl::ToInt64Nanoseconds(ttl));","  return absl::ToInt64Nanoseconds(std::max(ttl, kMinTtl));")
quiet("gauge-exp","gauge.cc","  auto ago = now - Updated();\n  return ago > ttl_nanos_;","  return Updated() + ttl_nanos_ < now;")
quiet("mg-early","max_gauge.cc","  if (value == kMinValue) {\n    return;\n  }","  const bool unset = value == kMinValue;\n  if (unset) return;")
quiet("mg-tern","max_gauge.cc","  if (v != kMinValue) {\n    return v;\n  }\n  return kNaN;","  return v == kMinValue ? kNaN : v;")
quiet("mc-xchg","monotonic_counter.cc","  auto delta = value - prev_value_.load(std::memory_order_relaxed);\n  prev_value_.store(value, std::memory_order_relaxed);","  auto delta = value - prev_value_.exchange(value, std::memory_order_relaxed);")
quiet("mcu-order","monotonic_counter_uint.cc","  prev_value_.store(value, std::memory_order_relaxed);\n  init_.store(true, std::memory_order_relaxed);","  init_ = true;\n  prev_value_ = value;")
quiet("mcu-wrap","monotonic_counter_uint.cc","  if (curr < prev) {\n    return kMax - prev + curr + 1;\n  } else {\n    return curr - prev;\n  }","  return curr - prev;")
quiet("mcu-flip","monotonic_counter_uint.cc","  if (curr < prev) {\n    return kMax - prev + curr + 1;\n  } else {\n    return curr - prev;\n  }","  return curr >= prev ? curr - prev : curr + (kMax - prev) + 1;")
quiet("mcu-over","monotonic_counter_uint.cc","    if (delta > kOverflow) {\n      // deltas that appear to be unexpected overflows will be reported as zeroes instead\n      results->emplace_back(*count_id_, 0);\n    } else {\n      results->emplace_back(*count_id_, delta);\n    }","    results->emplace_back(*count_id_, delta > kOverflow ? 0 : delta);")
quiet("ms-helper","monotonic_sampled.cc","    auto delta_t = (ts_ - prev_ts_) / 1e9;\n    sampled_delta = (value_ - prev_value_) / delta_t;","    const auto dv = value_ - prev_value_;\n    const double dt = (ts_ - prev_ts_) / 1e9;\n    sampled_delta = dv / dt;")
quiet("ms-early","monotonic_sampled.cc","  if (ts_nanos < ts_) {\n    return;\n  }","  if (ts_ > ts_nanos) return;")
quiet("ag-inline","age_gauge.h","    auto last_success = GetLastSuccess();\n    return static_cast<double>(now - last_success) / 1e9;","    return (now - last_success_.load()) / 1e9;")
quiet("add-double","atomicnumber.h","  double current;\n  do {\n    current = n->load(std::memory_order_relaxed);\n  } while (!n->compare_exchange_weak(current, current + delta));","  auto current = n->load(std::memory_order_relaxed);\n  while (!n->compare_exchange_weak(current, current + delta)) {\n  }")
quiet("upd-max","atomicnumber.h","  T current;\n  do {\n    current = n->load(std::memory_order_relaxed);\n  } while (value > current && !n->compare_exchange_weak(current, value));","  T current = n->load(std::memory_order_relaxed);\n  while (current < value) {\n    if (n->compare_exchange_weak(current, value)) {\n      break;\n    }\n  }")
quiet("meter-exp","registry.h","  auto updated_ago = now - m.Updated();\n  return updated_ago > meter_ttl;","  return !(now - m.Updated() <= meter_ttl);")
quiet("rm-for","registry.h","      auto it = meters_.begin();\n      auto end = meters_.end();\n      while (it != end) {\n        ++total;","      for (auto it = meters_.begin(); it != meters_.end();) {\n        total++;")
quiet("rm-total","registry.h","        ++total;\n        if (is_meter_expired(now, *it->second, meter_ttl)) {\n          it = meters_.erase(it);\n          ++expired;\n        } else {\n          ++it;\n        }","        if (!is_meter_expired(now, *it->second, meter_ttl)) {\n          ++it;\n        } else {\n          expired++;\n          it = meters_.erase(it);\n        }\n        ++total;")
quiet("meas-cont","registry.h","      if (!is_meter_expired(now, *m, meter_ttl)) {\n        m->Measure(res);\n      }","      if (is_meter_expired(now, *m, meter_ttl)) {\n        continue;\n      }\n      m->Measure(res);")
quiet("distids","dist_stats.h","struct DistStats {\n  Id total;","struct DistStats {\n  // ids\n  Id total;")
quiet("meter-upd","meter.h","last_updated_ = absl::GetCurrentTimeNanos();","last_updated_.store(absl::GetCurrentTimeNanos(), std::memory_order_relaxed);")
json.dump(B,open("/tmp/meters.json","w"),indent=1)
