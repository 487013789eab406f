import json
B=[]
R="spectator/registry.h"
def bad(name,old,new,file=R,checks="P28",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=R,checks="P28",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
X="server/expiring_cache.h"
M="spectator/measurement.h"
GET="""    absl::MutexLock lock(&meters_mutex_);
    auto it = meters_.find(id);
    return it != meters_.end() ? it->second : nullptr;
"""
AT="""  auto at(const Id& id) -> std::shared_ptr<M> {
    absl::MutexLock lock(&meters_mutex_);
    return meters_.at(id);
  }
"""
MEAS="""    absl::MutexLock lock(&meters_mutex_);
    auto now = absl::GetCurrentTimeNanos();

    for (const auto& pair : meters_) {
      const auto& m = pair.second;
      if (!is_meter_expired(now, *m, meter_ttl)) {
        m->Measure(res);
      }
    }
"""
bad("meas-ref","  Id id;\n","  const Id& id;\n",M)
bad("meas-ptr","      : id{id_param}, value{value_param} {}","      : id_{&id_param}, id{id_param}, value{value_param} {}",M,edits=[["  double value;\n","  const Id* id_;\n  double value;\n"]])
bad("meas-tags","  double value;\n","  const Tags* tags{&id.GetTags()};\n  double value;\n",M)
G="  auto get(const Id& id) const -> std::shared_ptr<M> {\n"+GET
bad("get-ref",G,"""  auto get(const Id& id) const -> const std::shared_ptr<M>& {
    absl::MutexLock lock(&meters_mutex_);
    static const std::shared_ptr<M> none;
    auto it = meters_.find(id);
    return it != meters_.end() ? it->second : none;
""")
bad("get-raw",G,"""  auto get(const Id& id) const -> M* {
    absl::MutexLock lock(&meters_mutex_);
    auto it = meters_.find(id);
    return it != meters_.end() ? it->second.get() : nullptr;
""",edits=[["spectator/registry.cc","    return known;","    return std::shared_ptr<AgeGauge>(known, [](AgeGauge*) {});"]])
bad("get-local",G,"""  auto get(const Id& id) const -> M* {
    absl::MutexLock lock(&meters_mutex_);
    M* res = nullptr;
    auto it = meters_.find(id);
    if (it != meters_.end()) res = it->second.get();
    return res;
""",edits=[["spectator/registry.cc","    return known;","    return all_meters_.age_gauges_.at(id);"]])
bad("get-late",GET,"""    auto it = [&] {
      absl::MutexLock lock(&meters_mutex_);
      return meters_.find(id);
    }();
    return it != meters_.end() ? it->second : nullptr;
""",checks="P28 P13")
bad("get-iter",GET,"""    typename decltype(meters_)::const_iterator it;
    {
      absl::MutexLock lock(&meters_mutex_);
      it = meters_.find(id);
    }
    return it->second;
""")
bad("get-ptr",GET,"""    const std::shared_ptr<M>* p = nullptr;
    {
      absl::MutexLock lock(&meters_mutex_);
      auto it = meters_.find(id);
      if (it != meters_.end()) p = &it->second;
    }
    return p ? *p : nullptr;
""")
bad("get-unlock",GET,"""    meters_mutex_.Lock();
    auto it = meters_.find(id);
    const auto* p = it != meters_.end() ? &it->second : nullptr;
    meters_mutex_.Unlock();
    return p != nullptr ? *p : nullptr;
""")
bad("get-noown",GET,"""    absl::MutexLock lock(&meters_mutex_);
    auto it = meters_.find(id);
    return it != meters_.end() ? std::shared_ptr<M>(it->second.get(), [](M*) {}) : nullptr;
""")
bad("meas-unlocked",MEAS,"""    std::vector<M*> live;
    auto now = absl::GetCurrentTimeNanos();
    {
      absl::MutexLock lock(&meters_mutex_);
      for (const auto& pair : meters_) {
        live.push_back(pair.second.get());
      }
    }
    for (auto* m : live) {
      if (!is_meter_expired(now, *m, meter_ttl)) {
        m->Measure(res);
      }
    }
""")
bad("ids-ptr","  auto get_ids() const -> std::vector<Id> {\n    std::vector<Id> res;","  auto get_ids() const -> std::vector<const Id*> {\n    std::vector<const Id*> res;",edits=[["res.emplace_back(pair.first);","res.emplace_back(&pair.first);"],["spectator/registry.cc","known_age_gauges[i]);","*known_age_gauges[i]);"]])
bad("cache-ref","  std::shared_ptr<V> get_or_create(","  const std::shared_ptr<V>& get_or_create(",X,edits=[["""    auto ret = entry.v;
    cache_.emplace(std::make_pair(std::move(k), std::move(entry)));
    return ret;""","""    return cache_.emplace(std::make_pair(std::move(k), std::move(entry))).first->second.v;"""]])
bad("cache-raw","  std::shared_ptr<V> get_or_create(","  V* get_or_create(",X,edits=[["      return entry.v;","      return entry.v.get();"],["    auto ret = entry.v;","    auto ret = entry.v.get();"]])
bad("cache-entry-after","    absl::MutexLock lock{&cache_mutex_};\n\n    auto it = cache_.find(k);\n    if (it != cache_.end()) {\n      auto& entry = it->second;\n      entry.updated = std::chrono::steady_clock::now();\n      return entry.v;\n    }\n",
"""    const detail::cache_entry<V>* known = nullptr;
    {
      absl::MutexLock lock{&cache_mutex_};
      auto it = cache_.find(k);
      if (it != cache_.end()) {
        it->second.updated = std::chrono::steady_clock::now();
        known = &it->second;
      }
    }
    if (known != nullptr) return known->v;
    absl::MutexLock lock{&cache_mutex_};
""",X)
bad("timer-field","  std::shared_ptr<Timer> timer_;","  Timer* timer_;","spectator/percentile_timer.h",edits=[["timer_{registry->GetTimer(id_)}","timer_{registry->GetTimer(id_).get()}"]]) if "std::shared_ptr<Timer> timer_;" in open("/repo/spectator/percentile_timer.h").read() else None
bad("temp-ref",'      registry->GetAgeGauge(std::move(measurement.id))','      registry->GetAgeGauge(std::move(measurement.id))',"server/spectatord.cc")
B.pop()
quiet("at-copy",AT,"""  auto at(const Id& id) -> std::shared_ptr<M> {
    absl::MutexLock lock(&meters_mutex_);
    const auto& found = meters_.at(id);
    return found;
  }
""")
quiet("get-outer",GET,"""    std::shared_ptr<M> res;
    {
      absl::MutexLock lock(&meters_mutex_);
      auto it = meters_.find(id);
      if (it != meters_.end()) {
        res = it->second;
      }
    }
    return res;
""")
quiet("get-manual",GET,"""    meters_mutex_.Lock();
    auto it = meters_.find(id);
    auto res = it != meters_.end() ? it->second : nullptr;
    meters_mutex_.Unlock();
    return res;
""")
quiet("meas-snapshot",MEAS,"""    std::vector<std::shared_ptr<M>> live;
    auto now = absl::GetCurrentTimeNanos();
    {
      absl::MutexLock lock(&meters_mutex_);
      for (const auto& pair : meters_) {
        live.push_back(pair.second);
      }
    }
    for (const auto& m : live) {
      if (!is_meter_expired(now, *m, meter_ttl)) {
        m->Measure(res);
      }
    }
""")
quiet("meas-ref",MEAS,MEAS.replace("const auto& m = pair.second;","const M& m = *pair.second;").replace("*m,","m,").replace("m->","m."))
quiet("expired-iter","        if (is_meter_expired(now, *it->second, meter_ttl)) {","        const M& m = *it->second;\n        if (is_meter_expired(now, m, meter_ttl)) {")
quiet("cache-emplace","""    detail::cache_entry<V> entry{std::chrono::steady_clock::now(),
                                 supplier_(registry, k)};
    auto ret = entry.v;
    cache_.emplace(std::make_pair(std::move(k), std::move(entry)));
    return ret;""","""    std::shared_ptr<V> v = supplier_(registry, k);
    cache_.emplace(std::make_pair(std::move(k), detail::cache_entry<V>{std::chrono::steady_clock::now(), v}));
    return v;""",X)
quiet("cache-reset","    auto ret = entry.v;","    std::shared_ptr<V> ret;\n    ret = entry.v;",X)
quiet("helper","  auto at(const Id& id) -> std::shared_ptr<M> {\n    absl::MutexLock lock(&meters_mutex_);\n    return meters_.at(id);\n  }\n","""  static auto deref(const std::shared_ptr<M>& p) -> const M& { return *p; }
  auto at(const Id& id) -> std::shared_ptr<M> {
    absl::MutexLock lock(&meters_mutex_);
    auto r = meters_.at(id);
    (void)deref(r);
    return r;
  }
""")
quiet("values-rename","""    std::vector<const M*> res;
    {
      absl::MutexLock lock{&meters_mutex_};
      res.reserve(meters_.size());
      for (const auto& pair : meters_) {
        res.emplace_back(pair.second.get());
      }
    }
    return res;""","""    absl::MutexLock lock{&meters_mutex_};
    std::vector<const M*> values;
    values.reserve(meters_.size());
    for (const auto& entry : meters_) {
      values.push_back(entry.second.get());
    }
    return values;""")
quiet("values-transform","""    std::vector<const M*> res;
    {
      absl::MutexLock lock{&meters_mutex_};
      res.reserve(meters_.size());
      for (const auto& pair : meters_) {
        res.emplace_back(pair.second.get());
      }
    }
    return res;""","""    std::vector<const M*> values;
    {
      absl::MutexLock lock{&meters_mutex_};
      std::transform(meters_.begin(), meters_.end(), std::back_inserter(values), [](const auto& p) { return p.second.get(); });
    }
    return values;""")
quiet("line-local","","","server/spectatord.cc")
B.pop()
json.dump(B,open("/tmp/p28.json","w"))
