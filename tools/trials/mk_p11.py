import json
B=[];S="spectator/"
def bad(name,old,new,checks="P11 P12",file="spectator/registry.h",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,checks="P11 P12",file="spectator/registry.h",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
bad("rm-count","          it = meters_.erase(it);\n          ++expired;","          it = meters_.erase(it);")
bad("rm-skip","          it = meters_.erase(it);\n          ++expired;","          it = meters_.erase(it);\n          ++expired;\n          if (it != end) ++it;")
bad("rm-total","        ++total;\n        if (is_meter_expired(now, *it->second, meter_ttl)) {","        if (is_meter_expired(now, *it->second, meter_ttl)) {\n        ++total;")
bad("size-omit","mono_counters_uint_.size() + mono_sampled_.size()","mono_counters_uint_.size()")
bad("size-dup","mono_counters_uint_.size() + mono_sampled_.size()","mono_counters_uint_.size() + mono_counters_uint_.size()")
bad("meas-omit","    mono_sampled_.measure(&res, meter_ttl);\n","")
bad("meas-dup","    mono_sampled_.measure(&res, meter_ttl);\n","    mono_counters_uint_.measure(&res, meter_ttl);\n")
bad("exp-omit","    std::tie(expired, count) = mono_sampled_.remove_expired(meter_ttl);\n    total_expired += expired;\n    total_count += count;\n","")
bad("exp-omit-total","    std::tie(expired, count) = mono_sampled_.remove_expired(meter_ttl);\n    total_expired += expired;\n    total_count += count;\n","    std::tie(expired, count) = mono_sampled_.remove_expired(meter_ttl);\n    total_count += count;\n")
bad("exp-swap","    return {total_expired, total_count};","    return {total_count, total_expired};")
bad("exp-age","int total_count = age_gauges_.size();","int total_count = 0;")
bad("exp-lastonly","    std::tie(expired, count) = timers_.remove_expired(meter_ttl);\n    total_expired += expired;","    std::tie(expired, count) = timers_.remove_expired(meter_ttl);\n    total_expired = expired;")
bad("meas-cond","    timers_.measure(&res, meter_ttl);","    if (!res.empty()) timers_.measure(&res, meter_ttl);")
quiet("size-split","    return age_gauges_.size() + counters_.size() + dist_sums_.size() +\n","    size_t n = age_gauges_.size();\n    n += counters_.size();\n    return n + dist_sums_.size() +\n")
quiet("meas-order","    age_gauges_.measure(&res, meter_ttl);\n    counters_.measure(&res, meter_ttl);","    counters_.measure(&res, meter_ttl);\n    age_gauges_.measure(&res, meter_ttl);")
quiet("exp-lambda","    std::tie(expired, count) = counters_.remove_expired(meter_ttl);\n    total_expired += expired;\n    total_count += count;\n","    auto sweep = [&](auto& m) {\n      auto r = m.remove_expired(meter_ttl);\n      total_expired += r.first;\n      total_count += r.second;\n    };\n    sweep(counters_);\n")
quiet("exp-sb","    std::tie(expired, count) = counters_.remove_expired(meter_ttl);\n    total_expired += expired;\n    total_count += count;\n","    {\n      const auto [e, n] = counters_.remove_expired(meter_ttl);\n      total_expired += e;\n      total_count += n;\n    }\n")
quiet("exp-tmpl","struct all_meters {","template <typename M>\nvoid sweep(meter_map<M>& m, int64_t ttl, int* e, int* n) {\n  auto r = m.remove_expired(ttl);\n  *e += r.first;\n  *n += r.second;\n}\nstruct all_meters {",edits=[["spectator/registry.h","struct all_meters {","template <typename M>\nvoid sweep(meter_map<M>& m, int64_t ttl, int* e, int* n) {\n  auto r = m.remove_expired(ttl);\n  *e += r.first;\n  *n += r.second;\n}\nstruct all_meters {"],["spectator/registry.h","    std::tie(expired, count) = timers_.remove_expired(meter_ttl);\n    total_expired += expired;\n    total_count += count;\n","    sweep(timers_, meter_ttl, &total_expired, &total_count);\n"]])
quiet("rm-diff","    auto expired = 0;\n    auto total = 0;\n","    auto expired = 0;\n    auto total = int{0};\n")
quiet("rm-for","      auto it = meters_.begin();\n      auto end = meters_.end();\n      while (it != end) {\n        ++total;","      for (auto it = meters_.begin(); it != meters_.end();) {\n        total += 1;")
quiet("rm-pair","    return {expired, total};\n  }\n\n  auto remove_one","    return std::make_pair(expired, total);\n  }\n\n  auto remove_one")
json.dump(B,open("/tmp/p11.json","w"),indent=1)
