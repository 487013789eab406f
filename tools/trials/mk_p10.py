import json
B=[]
S="spectator/registry.h"; R="spectator/registry.cc"; D="spectator/id.h"; E="server/expiring_cache.h"; V="server/spectatord.cc"
def bad(name,old,new,file=S,checks="P10",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P10",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
INS="""    const auto& id = meter->MeterId();
    auto insert_result = meters_.emplace(id, std::move(meter));
    return insert_result.first->second;"""
bad("assign",INS,"    auto id = meter->MeterId();\n    auto insert_result = meters_.insert_or_assign(id, std::move(meter));\n    return insert_result.first->second;")
bad("index",INS,"    auto& slot = meters_[meter->MeterId()];\n    slot = std::move(meter);\n    return slot;")
bad("retnew",INS,"    meters_.emplace(meter->MeterId(), meter);\n    return meter;")
bad("split","""    absl::MutexLock lock(&meters_mutex_);
"""+INS,"""    const auto& id = meter->MeterId();
    if (auto known = get(id)) return known;
    absl::MutexLock lock(&meters_mutex_);
    meters_[id] = meter;
    return meter;""")
bad("split2","""    absl::MutexLock lock(&meters_mutex_);
"""+INS,"""    const auto& id = meter->MeterId();
    if (auto known = get(id)) return known;
    absl::MutexLock lock(&meters_mutex_);
    meters_.emplace(id, meter);
    return meter;""")
bad("erase",INS,"    auto id = meter->MeterId();\n    meters_.erase(id);\n    return meters_.emplace(id, std::move(meter)).first->second;")
bad("keystat",INS,"    auto id = meter->MeterId().WithDefaultStat(refs().count());\n    auto insert_result = meters_.emplace(id, std::move(meter));\n    return insert_result.first->second;")
bad("gettags","return GetCounter(Id::Of(name, std::move(tags)));","return GetCounter(Id::Of(name));",R)
bad("getdist","  return GetDistributionSummary(Id::Of(name, std::move(tags)));","  tags.add(\"statistic\", \"count\");\n  return GetDistributionSummary(Id::Of(name, std::move(tags)));",R)
bad("unreg","  return all_meters_.insert_timer(std::move(id));","  return std::make_shared<Timer>(std::move(id));",R)
bad("gaugettl","""  auto g = all_meters_.insert_gauge(std::move(id), ttl);
  g->SetTtl(ttl);  // in case the previous ttl was different""","""  auto g = all_meters_.insert_gauge(id, ttl);
  if (ttl != absl::ZeroDuration() && g->GetTtl() != ttl) {
    all_meters_.gauges_.remove_one(id);
    g = all_meters_.insert_gauge(std::move(id), ttl);
  }""",R)
bad("eqname","return name_ == rhs.name_ && tags_ == rhs.tags_;","return tags_ == rhs.tags_;",D)
bad("eqhash","return name_ == rhs.name_ && tags_ == rhs.tags_;","return Hash() == rhs.Hash();",D)
bad("eqhash2","return name_ == rhs.name_ && tags_ == rhs.tags_;","return name_ == rhs.name_ && tags_.hash() == rhs.tags_.hash();",D)
bad("eqor","return name_ == rhs.name_ && tags_ == rhs.tags_;","return name_ == rhs.name_ || tags_ == rhs.tags_;",D)
bad("hashthis","hash_ = tags_.hash() ^ std::hash<StrRef>()(name_);","hash_ = tags_.hash() ^ std::hash<const void*>()(this);",D)
bad("hashalloc","hash_ = tags_.hash() ^ std::hash<StrRef>()(name_);","hash_ = reinterpret_cast<size_t>(tags_.begin()) ^ std::hash<StrRef>()(name_);",D)
bad("hashstale","""    Tags tags{GetTags()};
    tags.add(key, value);
    return Id(Name(), tags);""","""    Id copy{*this};
    copy.tags_.add(key, value);
    return copy;""",D)
bad("ctor1","name_(name), tags_(std::move(tags)), hash_(0U) {}","name_(name), tags_(std::move(tags)), hash_(1U) {}",D)
bad("mutate","  friend struct std::hash<Id>;\n","  void AddTag(StrRef k, StrRef v) { tags_.add(k, v); }\n  friend struct std::hash<Id>;\n",D)
bad("cachekey","supplier_(registry, k)};","supplier_(registry, k.WithStat(spectator::refs().count()))};",E,expect="bad")
bad("cachekey2","cache_.emplace(std::make_pair(std::move(k), std::move(entry)));","cache_.emplace(std::make_pair(k.WithTag(spectator::refs().name(), k.Name()), std::move(entry)));",E)
bad("cachenew","    auto ret = entry.v;\n    cache_.emplace","    std::shared_ptr<V> ret{supplier_(registry, k)};\n    cache_.emplace",E)
bad("cachesplit","""    absl::MutexLock lock{&cache_mutex_};

    auto it = cache_.find(k);
    if (it != cache_.end()) {
      auto& entry = it->second;
      entry.updated = std::chrono::steady_clock::now();
      return entry.v;
    }
""","""    {
      absl::MutexLock lock{&cache_mutex_};
      auto it = cache_.find(k);
      if (it != cache_.end()) {
        auto& entry = it->second;
        entry.updated = std::chrono::steady_clock::now();
        return entry.v;
      }
    }
    absl::MutexLock lock{&cache_mutex_};
""",E)
bad("cachenoinsert","    cache_.emplace(std::make_pair(std::move(k), std::move(entry)));\n","",E)
bad("supplier","      registry, std::move(id), min_perc_timer","      registry, id.WithStat(spectator::refs().percentile()), min_perc_timer",V)
quiet("tryemplace",INS,"    auto insert_result = meters_.try_emplace(meter->MeterId(), meter);\n    return insert_result.first->second;")
quiet("findfirst",INS,"""    const auto& id = meter->MeterId();
    auto it = meters_.find(id);
    if (it != meters_.end()) {
      return it->second;
    }
    meters_.emplace(id, meter);
    return meter;""")
quiet("slot",INS,"""    auto& slot = meters_[meter->MeterId()];
    if (!slot) {
      slot = std::move(meter);
    }
    return slot;""")
quiet("second",INS,"""    auto result = meters_.insert({meter->MeterId(), meter});
    if (result.second) {
      return meter;
    }
    return result.first->second;""")
quiet("sb",INS,"    auto [it, inserted] = meters_.emplace(meter->MeterId(), meter);\n    (void)inserted;\n    return it->second;")
quiet("fast","""    absl::MutexLock lock(&meters_mutex_);
"""+INS,"""    const auto& id = meter->MeterId();
    if (auto known = get(id)) {
      return known;
    }
    absl::MutexLock lock(&meters_mutex_);
    return meters_.emplace(id, meter).first->second;""")
quiet("helper","  return all_meters_.insert_counter(std::move(id));","  auto& table = all_meters_.counters_;\n  auto fresh = std::make_shared<Counter>(std::move(id));\n  return table.insert(std::move(fresh));",R)
quiet("eq2","return name_ == rhs.name_ && tags_ == rhs.tags_;","if (!(name_ == rhs.name_)) {\n      return false;\n    }\n    return tags_ == rhs.tags_;",D)
quiet("eqswap","return name_ == rhs.name_ && tags_ == rhs.tags_;","return rhs.tags_ == tags_ && rhs.name_ == name_;",D)
quiet("eqshort","return name_ == rhs.name_ && tags_ == rhs.tags_;","if (hash_ != 0 && rhs.hash_ != 0 && hash_ != rhs.hash_) return false;\n    return name_ == rhs.name_ && tags_ == rhs.tags_;",D)
quiet("hashlocal","""      hash_ = tags_.hash() ^ std::hash<StrRef>()(name_);
    }
    return hash_;""","""      auto h = std::hash<StrRef>()(name_);
      h ^= tags_.hash();
      hash_ = h;
    }
    return hash_;""",D)
quiet("nohashcache","""    if (hash_ == 0) {
      // compute hash code, and reuse it
      hash_ = tags_.hash() ^ std::hash<StrRef>()(name_);
    }
    return hash_;""","""    return tags_.hash() * 31 + std::hash<StrRef>()(name_);""",D)
quiet("cacheins","    cache_.emplace(std::make_pair(std::move(k), std::move(entry)));","    cache_.emplace(k, std::move(entry));",E)
quiet("cacheneg","""    if (it != cache_.end()) {
      auto& entry = it->second;
      entry.updated = std::chrono::steady_clock::now();
      return entry.v;
    }

    detail::cache_entry<V> entry{std::chrono::steady_clock::now(),
                                 supplier_(registry, k)};
    auto ret = entry.v;
    cache_.emplace(std::make_pair(std::move(k), std::move(entry)));
    return ret;""","""    if (it == cache_.end()) {
      detail::cache_entry<V> fresh{std::chrono::steady_clock::now(), supplier_(registry, k)};
      it = cache_.emplace(std::move(k), std::move(fresh)).first;
    } else {
      it->second.updated = std::chrono::steady_clock::now();
    }
    return it->second.v;""",E)
quiet("supplier","  return std::make_unique<spectator::PercentileTimer>(\n      registry, std::move(id), min_perc_timer, max_perc_timer);","  const auto& same = id;\n  return std::make_unique<spectator::PercentileTimer>(registry, same, min_perc_timer, max_perc_timer);",V)
json.dump(B,open('/tmp/p10.json','w'),indent=1)
