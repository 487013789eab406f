import json
B=[]
S="server/spectatord.cc"
def bad(name,old,new,file=S,checks="P07",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P07",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
H="""      for (auto i = 0; i < k; ++i) {
        hist->Record(value);
      }
"""
T="""      for (auto i = 0; i < k; ++i) {
        timer->Record(ns);
      }
"""
bad("ctr","      registry->GetCounter(std::move(id))->Add(value / sampling_rate);","      { auto ctr = registry->GetCounter(std::move(id));\n      for (auto n = std::lround(1 / sampling_rate); n > 0; --n) ctr->Add(value); }")
bad("hval",H,"      for (auto i = 0; i < value; ++i) {\n        hist->Record(1);\n      }\n")
bad("hval2","auto k = std::lround(1 / sampling_rate);\n      auto hist","auto k = std::lround(value / sampling_rate);\n      auto hist")
bad("gloop","      registry->GetGauge(std::move(id))->Set(value);","      { auto g = registry->GetGauge(std::move(id));\n        do { g->Set(value); value -= 1; } while (value > 100); }")
bad("cAdd","registry_->GetCounter(measurement->id)->Add(measurement->value.d);","{ auto ctr = registry_->GetCounter(measurement->id);\n      for (double v = measurement->value.d; v > 0; v -= 1) ctr->Add(v < 1 ? v : 1); }")
bad("stuck","  while (*p == '\\n') {\n    ++p;\n","  while (*p == '\\n') {\n")
quiet("down","      for (auto i = 0; i < k; ++i) {\n        hist->Record(value);\n      }\n","      while (k-- > 0) {\n        hist->Record(value);\n      }\n")
quiet("fn",H,"      record_times(k, [&] { hist->Record(value); });\n",edits=[["static void update_statsd_metric(","template <typename F>\nstatic void record_times(long times, F&& f) {\n  for (long n = 0; n != times && n < times; ++n) {\n    f();\n  }\n}\n\nstatic void update_statsd_metric("]])
quiet("long",T,"      for (long i = 0L; i < k; i++) {\n        timer->Record(ns);\n      }\n")
quiet("skip","    while (*++newline == '\\n') {\n    }\n    p = newline;\n","    do {\n      ++newline;\n    } while (*newline == '\\n');\n    p = newline;\n")
quiet("for","  while (*p == '\\n') {\n    ++p;\n  }\n","  for (; *p == '\\n'; ++p) {\n  }\n")
bad("cadd","      registry_->GetCounter(measurement->id)->Add(measurement->value.d);","      for (int i = 0; i < static_cast<int>(measurement->value.d); ++i) registry_->GetCounter(measurement->id)->Add(1);")
bad("ctrloop","void Counter::Add(double delta) noexcept {","void Counter::Add(double delta) noexcept {\n    while (delta > 1e6) {\n      Add(1e6);\n      delta -= 1e6;\n    }","spectator/counter.cc")
bad("cont","    if (newline == nullptr) {\n      break;\n    }","    if (newline == nullptr) {\n      if (maybe_err) continue;\n      break;\n    }")
json.dump([b for b in B if b],open('/tmp/p07.json','w'),indent=1)
