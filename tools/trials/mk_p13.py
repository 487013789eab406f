import json
B=[]
RH="spectator/registry.h"; SP="spectator/string_pool.cc"; SPH="spectator/string_pool.h"; MS="spectator/monotonic_sampled.cc"; RC="spectator/registry.cc"; EC="server/expiring_cache.h"; PH="spectator/publisher.h"; SC="server/spectatord.cc"; HC="spectator/http_client.cc"
def bad(name,old,new,file=RH,checks="P13",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=RH,checks="P13",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
L="    absl::MutexLock lock(&meters_mutex_);\n"; LB="    absl::MutexLock lock{&meters_mutex_};\n"
bad("size","  auto size() const noexcept {\n"+L,"  auto size() const noexcept {\n")
bad("contains","  auto contains(const Id& id) -> bool {\n"+L,"  auto contains(const Id& id) -> bool {\n")
bad("insert","-> std::shared_ptr<M> {\n"+L+"    const auto& id","-> std::shared_ptr<M> {\n    const auto& id")
bad("insert-scope",L+"    const auto& id = meter->MeterId();\n    auto insert_result = meters_.emplace(id, std::move(meter));\n    return insert_result.first->second;",
 "    auto insert_one = [&] {\n      absl::MutexLock lock(&meters_mutex_);\n      return meters_.emplace(meter->MeterId(), meter).first;\n    };\n    auto it = insert_one();\n    return it->second;")
bad("get-after","    absl::MutexLock lock(&meters_mutex_);\n    auto it = meters_.find(id);\n    return it != meters_.end() ? it->second : nullptr;",
 "    auto it = meters_.end();\n    {\n      absl::MutexLock lock(&meters_mutex_);\n      it = meters_.find(id);\n      if (it == meters_.end()) return nullptr;\n    }\n    return it->second;")
bad("measure-late",L+"    auto now = absl::GetCurrentTimeNanos();\n\n    for (const auto& pair : meters_) {","    auto now = absl::GetCurrentTimeNanos();\n\n    for (const auto& pair : meters_) {\n      absl::MutexLock lock(&meters_mutex_);")
bad("expire-begin","    {\n      absl::MutexLock lock{&meters_mutex_};\n      auto it = meters_.begin();\n      auto end = meters_.end();\n","    auto it = meters_.begin();\n    auto end = meters_.end();\n    {\n      absl::MutexLock lock{&meters_mutex_};\n")
bad("remove_one",LB+"    return meters_.erase(id) > 0;","    return meters_.erase(id) > 0;")
bad("ids","    {\n      absl::MutexLock lock(&meters_mutex_);\n      res.reserve(meters_.size());\n      for (const auto& pair : meters_) {\n        res.emplace_back(pair.first);\n      }\n    }","    {\n      absl::MutexLock lock(&meters_mutex_);\n      res.reserve(meters_.size());\n    }\n    for (const auto& pair : meters_) {\n      res.emplace_back(pair.first);\n    }")
bad("dcl",L+"    auto it = meters_.find(id);\n    return it != meters_.end() ? it->second : nullptr;","    if (meters_.empty()) return nullptr;\n"+L+"    auto it = meters_.find(id);\n    return it != meters_.end() ? it->second : nullptr;")
bad("localmutex",L+"    return meters_.at(id);","    static absl::Mutex m;\n    absl::MutexLock lock(&m);\n    return meters_.at(id);")
bad("all-raw","  meter_map<Counter> counters_;","  meter_map<Counter> counters_;\n  auto raw_counters() const { return counters_.meters_.size(); }")
bad("refout",L+"    return meters_.at(id);\n  }","    absl::MutexLock lock(&meters_mutex_);\n    return meters_.at(id);\n  }\n  auto table() -> table_t& {\n    absl::MutexLock lock(&meters_mutex_);\n    return meters_;\n  }")
bad("early","    absl::MutexLock lock{&meters_mutex_};\n    return meters_.erase(id) > 0;","    meters_mutex_.Lock();\n    if (meters_.empty()) return false;\n    auto r = meters_.erase(id) > 0;\n    meters_mutex_.Unlock();\n    return r;")
bad("reacq","  auto contains(const Id& id) -> bool {\n"+L+"    return meters_.contains(id);","  auto contains(const Id& id) -> bool {\n"+L+"    return size() > 0 && meters_.contains(id);")
bad("noann-nolock","  table_t meters_ ABSL_GUARDED_BY(meters_mutex_);","  table_t meters_;",edits=[["  auto size() const noexcept {\n"+L,"  auto size() const noexcept {\n"]])
# string pool
bad("sp-late","  absl::MutexLock lock(&table_mutex_);\n  String s{string, len};\n  auto it = table_.find(s);\n  if (it != table_.end()) {\n    stats_.hits++;\n    return it->second;\n  }\n","  String s{string, len};\n  auto it = table_.find(s);\n  if (it != table_.end()) {\n    absl::MutexLock lock(&table_mutex_);\n    stats_.hits++;\n    return it->second;\n  }\n  absl::MutexLock lock(&table_mutex_);\n",SP)
bad("sp-two","  String s{string, len};\n  auto it = table_.find(s);\n  if (it != table_.end()) {\n    stats_.hits++;\n    return it->second;\n  }\n","  String s{string, len};\n  {\n    absl::MutexLock lock(&table_mutex_);\n    auto it = table_.find(s);\n    if (it != table_.end()) {\n      stats_.hits++;\n      return it->second;\n    }\n  }\n",SP,edits=[["-> StrRef {\n  absl::MutexLock lock(&table_mutex_);\n","-> StrRef {\n"]])
bad("sp-stats","    absl::MutexLock lock(&table_mutex_);\n    return stats_;","    return stats_;",SPH)
bad("sp-reader","  absl::MutexLock lock(&table_mutex_);\n  String s{","  absl::ReaderMutexLock lock(&table_mutex_);\n  String s{",SP)
bad("sp-unlock","  if (it != table_.end()) {\n    stats_.hits++;\n    return it->second;\n  }\n","  if (it != table_.end()) {\n    stats_.hits++;\n    return it->second;\n  }\n  lock.Release();\n",SP,edits=[["  absl::MutexLock lock(&table_mutex_);\n  String s{","  absl::ReleasableMutexLock lock(&table_mutex_);\n  String s{"]])
bad("sp-statsrace","    // it's a cache hit","    lock.Release();\n    // it's a cache hit",SP,edits=[["  absl::MutexLock lock(&table_mutex_);\n  String s{","  absl::ReleasableMutexLock lock(&table_mutex_);\n  String s{"]])
# monotonic sampled
bad("ms-set","  absl::MutexLock lock(&mutex_);\n  // ignore out","  // ignore out",MS)
bad("ms-check","  absl::MutexLock lock(&mutex_);\n  // ignore out of order points, or wrap arounds\n  if (ts_nanos < ts_) {\n    return;\n  }\n","  // ignore out of order points, or wrap arounds\n  if (ts_nanos < ts_) {\n    return;\n  }\n  absl::MutexLock lock(&mutex_);\n",MS)
bad("ms-rate","  absl::MutexLock lock(&mutex_);\n  auto delta_t = (ts_ - prev_ts_) / 1e9;\n  return","  auto delta_t = (ts_ - prev_ts_) / 1e9;\n  return",MS)
bad("ms-self","    absl::MutexLock lock(&mutex_);\n    auto delta_t = (ts_ - prev_ts_) / 1e9;\n    sampled_delta = (value_ - prev_value_) / delta_t;","    absl::MutexLock lock(&mutex_);\n    sampled_delta = SampledRate();",MS)
bad("ms-prev","    prev_value_ = value_;\n    prev_ts_ = ts_;\n  }\n\n  if (sampled_delta > 0) {","  }\n  prev_value_ = value_;\n  prev_ts_ = ts_;\n\n  if (sampled_delta > 0) {",MS)
bad("ms-manual","  absl::MutexLock lock(&mutex_);\n  // ignore out of order points, or wrap arounds\n","  mutex_.Lock();\n  // ignore out of order points, or wrap arounds\n",MS,edits=[["  ts_ = ts_nanos;\n}","  ts_ = ts_nanos;\n  mutex_.Unlock();\n}"]])
# cache
bad("ec-create","    absl::MutexLock lock{&cache_mutex_};\n\n    auto it = cache_.find(k);\n    if (it != cache_.end()) {\n      auto& entry = it->second;\n      entry.updated = std::chrono::steady_clock::now();\n      return entry.v;\n    }\n","    {\n      absl::MutexLock lock{&cache_mutex_};\n      auto it = cache_.find(k);\n      if (it != cache_.end()) {\n        auto& entry = it->second;\n        entry.updated = std::chrono::steady_clock::now();\n        return entry.v;\n      }\n    }\n",EC)
bad("ec-expire","    absl::MutexLock lock{&cache_mutex_};\n    auto size","    auto size",EC)
bad("ec-entry","    auto it = cache_.find(k);\n    if (it != cache_.end()) {\n      auto& entry = it->second;\n      entry.updated = std::chrono::steady_clock::now();\n      return entry.v;\n    }\n","    auto it = cache_.find(k);\n    if (it != cache_.end()) {\n      auto& entry = it->second;\n      lock.Release();\n      entry.updated = std::chrono::steady_clock::now();\n      return entry.v;\n    }\n",EC,edits=[["    absl::MutexLock lock{&cache_mutex_};\n\n","    absl::ReleasableMutexLock lock{&cache_mutex_};\n\n"]])
# registry common tags
T="  absl::MutexLock lock(&common_tags_mutex_);\n"
bad("ct-get",T+"  return config_->common_tags;","  return config_->common_tags;",RC)
bad("ct-erase",T+"  config_->common_tags.erase(k);","  config_->common_tags.erase(k);",RC)
bad("ct-upd",T+"  auto it = config_->common_tags.find(k);","  auto it = config_->common_tags.find(k);",RC)
bad("ct-alias",T+"  config_->common_tags.erase(k);","  auto& tags = config_->common_tags;\n  {\n    absl::MutexLock lock(&common_tags_mutex_);\n  }\n  tags.erase(k);",RC)
bad("ct-pub","    for (const auto& kv : registry_->CommonTags()) {","    for (const auto& kv : registry_->GetConfig().common_tags) {",PH)
# publisher
bad("pub-resp","          absl::MutexLock lock(&responses_mutex);\n          auto batch_size","          auto batch_size",PH)
bad("pub-buf","          absl::MutexLock lock(&buffers_mutex);\n          payload = avail","          payload = avail",PH)
bad("pub-buf2","          absl::MutexLock lock(&buffers_mutex);\n          avail_buffers.emplace_back","          avail_buffers.emplace_back",PH)
bad("pub-wrong","          absl::MutexLock lock(&buffers_mutex);\n          avail_buffers.emplace_back","          absl::MutexLock lock(&responses_mutex);\n          avail_buffers.emplace_back",PH)
bad("pub-local","        SmilePayload* payload = nullptr;\n","        SmilePayload* payload = nullptr;\n        absl::Mutex buffers_mutex;\n",PH,edits=[["                         &buffers_mutex, &avail_buffers,","                         &avail_buffers,"]])
bad("pub-netlock","        measurements_to_json(payload, batch.first, batch.second);\n        auto response = client.Post(uri, HttpClient::kSmileJson, payload->Result());\n        {\n          absl::MutexLock lock(&responses_mutex);","        measurements_to_json(payload, batch.first, batch.second);\n        {\n          absl::MutexLock lock(&responses_mutex);\n          auto response = client.Post(uri, HttpClient::kSmileJson, payload->Result());",PH)
bad("pub-nowait","    batches_to_do.Wait();\n\n    auto num_err = 0U;\n    auto num_sent = 0U;\n","    auto num_err = 0U;\n    auto num_sent = static_cast<unsigned>(responses.size() * 0);\n    batches_to_do.Wait();\n\n",PH)
bad("pub-member","    auto from = measurements.begin();\n    auto end = measurements.end();\n    std::vector<std::pair<int, HttpResponse>> responses;","    auto from = measurements.begin();\n    auto end = measurements.end();\n    auto& responses = responses_;",PH,edits=[["  std::vector<SmilePayload> buffers_;","  std::vector<SmilePayload> buffers_;\n  std::vector<std::pair<int, HttpResponse>> responses_;"],["          absl::MutexLock lock(&responses_mutex);\n          auto batch_size","          auto batch_size"]])
bad("pub-stoplock","        std::unique_lock<std::mutex> lock{cv_mutex_};\n      }\n      cv_.notify_all();\n      sender_thread_.join();","        std::unique_lock<std::mutex> lock{cv_mutex_};\n        cv_.notify_all();\n        sender_thread_.join();\n      }",PH)
bad("pub-sendlock","      auto start = absl::Now();\n      try {\n        send_metrics();","      auto start = absl::Now();\n      std::unique_lock<std::mutex> l{cv_mutex_};\n      try {\n        send_metrics();",PH)
# registry / server stop
bad("reg-stop","      std::unique_lock<std::mutex> lock{cv_mutex_};\n    }\n    cv_.notify_all();\n    expirer_thread_.join();","      std::unique_lock<std::mutex> lock{cv_mutex_};\n    cv_.notify_all();\n    expirer_thread_.join();\n    }",RC)
bad("reg-exp","    remove_expired_meters();\n    auto elapsed","    std::unique_lock<std::mutex> lock{cv_mutex_};\n    remove_expired_meters();\n    auto elapsed",RC)
bad("srv-stop","      std::unique_lock<std::mutex> lock{cv_mutex_};\n    }\n    cv_.notify_all();\n    upkeep_thread_.join();","      std::unique_lock<std::mutex> lock{cv_mutex_};\n    cv_.notify_all();\n    upkeep_thread_.join();\n    }",SC)
# order inversion: intern under the pool lock calls the registry
bad("order","  auto DeleteMeter","",RC) if 0 else None
bad("inv","  void remove_all() noexcept {\n"+LB,"  void remove_all() noexcept {\n"+LB+"    other_->size();\n",RH,edits=[["  mutable absl::Mutex meters_mutex_{};","  mutable absl::Mutex meters_mutex_{};\n  meter_map<AgeGauge>* other_ = nullptr;"]]) if 0 else None
bad("inv-ct","  absl::MutexLock lock(&common_tags_mutex_);\n  config_->common_tags.erase(k);","  absl::MutexLock lock(&common_tags_mutex_);\n  all_meters_.gauges_.remove_one(Id::Of(k));\n  config_->common_tags.erase(k);",RC,
  edits=[[RH,"    return meters_.erase(id) > 0;","    if (on_erase) on_erase();\n    return meters_.erase(id) > 0;"],[RH,"  mutable absl::Mutex meters_mutex_{};","  mutable absl::Mutex meters_mutex_{};\n  std::function<void()> on_erase;"]]) if 0 else None
bad("inv2","auto Registry::CommonTags() const -> std::map<std::string, std::string> {\n"+T,"auto Registry::CommonTags() const -> std::map<std::string, std::string> {\n"+T+"  if (all_meters_.gauges_.size() == 0) return {};\n",RC,
  edits=[["bool Registry::DeleteMeter(const std::string& type, const Id& id) {\n  if (type == \"A\") {","bool Registry::DeleteMeter(const std::string& type, const Id& id) {\n  if (type == \"common\") {\n    absl::MutexLock lock(&all_meters_.gauges_.meters_mutex_);\n    EraseCommonTag(all_meters_.gauges_.meters_.begin()->first.Name().Get());\n    return true;\n  }\n  if (type == \"A\") {"]])
bad("ms-cb","    absl::MutexLock lock(&meters_mutex_);\n    auto now = absl::GetCurrentTimeNanos();\n\n    for (const auto& pair : meters_) {\n","    absl::MutexLock lock(&meters_mutex_);\n    auto now = absl::GetCurrentTimeNanos();\n\n    for (const auto& pair : meters_) {\n      if (size() == 0) break;\n")
# ---- quiet
quiet("helper","  auto contains(const Id& id) -> bool {\n"+L+"    return meters_.contains(id);\n  }","  auto contains(const Id& id) -> bool {\n"+L+"    return contains_locked(id);\n  }\n  auto contains_locked(const Id& id) const -> bool { return meters_.contains(id); }")
quiet("withlock","  auto size() const noexcept {\n"+L+"    return meters_.size();\n  }","  template <typename F>\n  auto with_lock(F&& f) const {\n"+L+"    return f();\n  }\n  auto size() const noexcept {\n    return with_lock([this] { return meters_.size(); });\n  }")
quiet("manual","    absl::MutexLock lock{&meters_mutex_};\n    return meters_.erase(id) > 0;","    meters_mutex_.Lock();\n    auto r = meters_.erase(id) > 0;\n    meters_mutex_.Unlock();\n    return r;")
quiet("autoref",L+"    auto it = meters_.find(id);\n    return it != meters_.end() ? it->second : nullptr;","    auto& table = meters_;\n"+L+"    auto it = table.find(id);\n    if (it == table.end()) {\n      return nullptr;\n    }\n    return it->second;")
quiet("algo","      for (const auto& pair : meters_) {\n        res.emplace_back(pair.first);\n      }","      std::for_each(meters_.begin(), meters_.end(), [&res, this](const auto& pair) { res.emplace_back(pair.first); });")
quiet("structured","      for (const auto& pair : meters_) {\n        res.emplace_back(pair.first);\n      }","      for (const auto& [id, meter] : meters_) {\n        res.emplace_back(id);\n      }")
quiet("copyout","  void measure(std::vector<Measurement>* res, int64_t meter_ttl) const {\n    absl::MutexLock lock(&meters_mutex_);\n    auto now = absl::GetCurrentTimeNanos();\n\n    for (const auto& pair : meters_) {\n      const auto& m = pair.second;\n","  void measure(std::vector<Measurement>* res, int64_t meter_ttl) const {\n    auto now = absl::GetCurrentTimeNanos();\n    std::vector<std::shared_ptr<M>> all;\n    {\n      absl::MutexLock lock(&meters_mutex_);\n      for (const auto& pair : meters_) {\n        all.push_back(pair.second);\n      }\n    }\n    for (const auto& m : all) {\n")
quiet("insertlocal",L+"    const auto& id = meter->MeterId();\n    auto insert_result = meters_.emplace(id, std::move(meter));\n    return insert_result.first->second;","    auto id = meter->MeterId();\n    std::shared_ptr<M> res;\n    {\n      absl::MutexLock lock(&meters_mutex_);\n      auto insert_result = meters_.emplace(id, std::move(meter));\n      res = insert_result.first->second;\n    }\n    return res;")
quiet("sp-helper","  absl::MutexLock lock(&table_mutex_);\n  String s{string, len};\n  auto it = table_.find(s);\n  if (it != table_.end()) {\n    stats_.hits++;\n    return it->second;\n  }\n","  absl::WriterMutexLock lock(&table_mutex_);\n  String s{string, len};\n  if (auto it = table_.find(s); it != table_.end()) {\n    ++stats_.hits;\n    return it->second;\n  }\n",SP)
quiet("sp-release","    stats_.hits++;\n    free(copy);\n  }\n  return added.first->second;","    stats_.hits++;\n  }\n  auto result = added.first->second;\n  auto fresh = added.second;\n  lock.Release();\n  if (!fresh) {\n    free(copy);\n  }\n  return result;",SP,edits=[["  absl::MutexLock lock(&table_mutex_);\n  String s{","  absl::ReleasableMutexLock lock(&table_mutex_);\n  String s{"]])
quiet("ms-lambda","  absl::MutexLock lock(&mutex_);\n  auto delta_t = (ts_ - prev_ts_) / 1e9;\n  return (value_ - prev_value_) / delta_t;","  auto rate = [this] { return (value_ - prev_value_) / ((ts_ - prev_ts_) / 1e9); };\n  absl::MutexLock lock(&mutex_);\n  return rate();",MS)
quiet("ms-snapshot","  absl::MutexLock lock(&mutex_);\n  auto delta_t = (ts_ - prev_ts_) / 1e9;\n  return (value_ - prev_value_) / delta_t;","  double v, pv;\n  int64_t t, pt;\n  {\n    absl::MutexLock lock(&mutex_);\n    v = value_;\n    pv = prev_value_;\n    t = ts_;\n    pt = prev_ts_;\n  }\n  return (v - pv) / ((t - pt) / 1e9);",MS)
quiet("ms-manual2","  absl::MutexLock lock(&mutex_);\n  // ignore out of order points, or wrap arounds\n  if (ts_nanos < ts_) {\n","  mutex_.Lock();\n  // ignore out of order points, or wrap arounds\n  if (ts_nanos < ts_) {\n    mutex_.Unlock();\n",MS,edits=[["  ts_ = ts_nanos;\n}","  ts_ = ts_nanos;\n  mutex_.Unlock();\n}"]])
quiet("ec-split","    absl::MutexLock lock{&cache_mutex_};\n\n    auto it = cache_.find(k);\n","    absl::MutexLock lock{&cache_mutex_};\n    auto& table = cache_;\n    auto it = table.find(k);\n",EC)
quiet("ct-copy",T+"  return config_->common_tags;","  std::map<std::string, std::string> res;\n  {\n    absl::MutexLock lock(&common_tags_mutex_);\n    res = config_->common_tags;\n  }\n  return res;",RC)
quiet("ct-brackets","  auto it = config_->common_tags.find(k);\n  if (it != config_->common_tags.end()) {\n    it->second = v;\n  } else {\n    config_->common_tags.insert({k, v});\n  }","  config_->common_tags[k] = v;",RC)
quiet("pub-guard","          absl::MutexLock lock(&buffers_mutex);\n          avail_buffers.emplace_back(payload);","          std::vector<SmilePayload*>& avail = avail_buffers;\n          absl::MutexLock guard{&buffers_mutex};\n          avail.emplace_back(payload);",PH)
quiet("pub-popfn","        SmilePayload* payload = nullptr;\n        {\n          absl::MutexLock lock(&buffers_mutex);\n          payload = avail_buffers.back();\n          avail_buffers.pop_back();\n        }\n","        SmilePayload* payload = [&] {\n          absl::MutexLock lock(&buffers_mutex);\n          auto* p = avail_buffers.back();\n          avail_buffers.pop_back();\n          return p;\n        }();\n",PH)
quiet("pub-lockguard","        std::unique_lock<std::mutex> lock{cv_mutex_};\n      }\n      cv_.notify_all();","        std::lock_guard<std::mutex> lock{cv_mutex_};\n      }\n      cv_.notify_all();",PH)
quiet("reg-unlock","    {\n      // the expirer has either seen should_stop_, or is waiting\n      std::unique_lock<std::mutex> lock{cv_mutex_};\n    }\n    cv_.notify_all();","    std::unique_lock<std::mutex> lock{cv_mutex_};\n    lock.unlock();\n    cv_.notify_all();",RC)
DEAD={"contains","localmutex","refout","reacq"}  # templates nothing instantiates
json.dump([b for b in B if b and b["name"] not in DEAD],open("/tmp/p13.json","w"))
