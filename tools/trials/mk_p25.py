import json
B=[]
S="server/spectatord.cc"
R="spectator/registry.cc"
P="spectator/publisher.h"
L="spectator/log_entry.h"
C="spectator/http_client.cc"
def bad(name,old,new,file=S,checks="P25",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P25",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
ERR="      if (cfg.status_metrics_enabled) {\n        parse_errors_->Increment();\n      }\n"
OK="    } else if (cfg.status_metrics_enabled) {\n      parsed_count_->Increment();\n    }\n"
bad("err-noguard",ERR,"      parse_errors_->Increment();\n")
bad("ok-noguard",OK,"    } else {\n      parsed_count_->Increment();\n    }\n")
bad("ok-neg",OK,OK.replace("(cfg","(!cfg"))
bad("err-never",ERR,"")
bad("ok-never",OK,"    }\n")
bad("swap",ERR,ERR.replace("parse_errors_","parsed_count_"))
bad("both",OK,"    }\n    if (cfg.status_metrics_enabled) {\n      parsed_count_->Increment();\n    }\n")
bad("first-only",ERR,"      if (cfg.status_metrics_enabled && err_msg.empty()) {\n        parse_errors_->Increment();\n      }\n")
bad("or",ERR,ERR.replace("cfg.status_metrics_enabled","cfg.status_metrics_enabled || err_msg.empty()"))
bad("uptime","  if (cfg.status_metrics_enabled) {\n    registry_->GetAgeGauge(\"spectatord.uptime\")->UpdateLastSuccess();\n  }\n","  registry_->GetAgeGauge(\"spectatord.uptime\")->UpdateLastSuccess();\n")
bad("uptime-get","  if (cfg.status_metrics_enabled) {\n    registry_->GetAgeGauge(\"spectatord.uptime\")->UpdateLastSuccess();\n  }\n","  auto uptime = registry_->GetAgeGauge(\"spectatord.uptime\");\n  if (cfg.status_metrics_enabled) {\n    uptime->UpdateLastSuccess();\n  }\n")
G1="    if (cfg.status_metrics_enabled) {\n      timers_size_gauge->Set(t_size);\n"
bad("up1",G1,G1.replace("if (cfg.status_metrics_enabled) ",""))
bad("up2","    if (cfg.status_metrics_enabled) {\n      pool_hits","    {\n      pool_hits")
bad("up-swap","timers_size_gauge->Set(t_size)","timers_size_gauge->Set(ds_size)")
bad("up-swap2","timers_expired_ctr->Add(t_expired)","timers_expired_ctr->Add(t_size)")
bad("up-tie","std::tie(t_size, t_expired) = perc_timers_.expire();","std::tie(t_expired, t_size) = perc_timers_.expire();")
bad("hits","pool_hits->Set(pool_stats.hits)","pool_hits->Set(pool_stats.misses)")
bad("alloc","pool_alloc_size->Set(pool_stats.alloc_size)","pool_alloc_size->Set(pool_stats.table_size)")
bad("nomisses","      pool_misses->Set(pool_stats.misses);\n","")
bad("dsdrop","      ds_size_gauge->Set(ds_size);\n","")
bad("hittag","spectator::Tags{{\"id\", \"hit\"}}","spectator::Tags{{\"id\", \"miss\"}}",edits=[["spectator::Tags{{\"id\", \"miss\"}});\n  static auto pool_alloc","spectator::Tags{{\"id\", \"hit\"}});\n  static auto pool_alloc"]])
bad("net","  if (info && cfg.status_metrics_enabled) {","  if (info) {")
bad("net-or","  if (info && cfg.status_metrics_enabled) {","  if (info || cfg.status_metrics_enabled) {")
bad("net-swap","udp_packets_dropped_ctr->Set(info->num_dropped)","udp_packets_dropped_ctr->Set(info->rx_queue_bytes)")
bad("net-one","    udp_queue->Set(info->rx_queue_bytes);\n","")
bad("reg","  if (config_->status_metrics_enabled) {\n    registry_size_->Record(res.size());\n  }\n","  registry_size_->Record(res.size());\n",file=R)
bad("reg-other","  if (config_->status_metrics_enabled) {\n    registry_size_","  if (config_->is_enabled()) {\n    registry_size_",file=R)
bad("reg-none","  if (config_->status_metrics_enabled) {\n    registry_size_->Record(res.size());\n  }\n","",file=R)
bad("reg-size","registry_size_->Record(res.size())","registry_size_->Record(ms_callbacks_.size())",file=R,expect="any")
bad("pub1","      if (status_metrics_enabled) {\n        sentMetrics_->Add(num_measurements);\n      }\n","      sentMetrics_->Add(num_measurements);\n",file=P)
bad("pub2","          if (status_metrics_enabled) {\n            droppedOther_->Add(num_measurements);\n          }\n","          droppedOther_->Add(num_measurements);\n",file=P)
bad("pub3","      if (status_metrics_enabled) {\n        droppedHttp_","      {\n        droppedHttp_",file=P)
bad("pub-neg","const auto& status_metrics_enabled = registry_->GetConfig().status_metrics_enabled;","const auto status_metrics_enabled = !registry_->GetConfig().status_metrics_enabled;",file=P)
bad("pub-wrong","const auto& status_metrics_enabled = registry_->GetConfig().status_metrics_enabled;","const auto& status_metrics_enabled = registry_->GetConfig().verbose_http;",file=P)
bad("pub-static","const auto& status_metrics_enabled = registry_->GetConfig().status_metrics_enabled;","const auto status_metrics_enabled = true;",file=P)
bad("log","    if (status_metrics_enabled) {\n      PercentileTimer","    {\n      PercentileTimer",file=L)
bad("log-neg","    if (status_metrics_enabled) {\n      PercentileTimer","    if (!status_metrics_enabled) {\n      PercentileTimer",file=L)
bad("log-true1","      entry.log(config_.status_metrics_enabled);\n","      entry.log(true);\n",file=C,edits=[]) if False else None
bad("log-true","  entry.log(config_.status_metrics_enabled);\n\n","  entry.log(true);\n\n",file=C,expect="any") if False else None
bad("cfg","cfg.verbose_http, cfg.status_metrics_enabled,","cfg.status_metrics_enabled, cfg.verbose_http,",file=P)
bad("cfg-true","cfg.verbose_http, cfg.status_metrics_enabled,","cfg.verbose_http, true,",file=P)
bad("newsite","  logger->info(\"Starting janitorial tasks\");","  registry_->GetCounter(\"spectatord.starts\")->Increment();\n  logger->info(\"Starting janitorial tasks\");")
bad("newsite2","  if (newline == nullptr) {\n      break;","  if (newline == nullptr) {\n      break;") if False else None
bad("newsite3","auto Server::parse_line(const char* buffer) -> std::optional<std::string> {\n  static int_fast64_t parsed_count = 0;\n","auto Server::parse_line(const char* buffer) -> std::optional<std::string> {\n  static int_fast64_t parsed_count = 0;\n  if (buffer[0] == '#') {\n    parse_errors_->Increment();\n  }\n")
bad("newsite4","  int total = 0, expired = 0;\n  std::tie(expired, total) = all_meters_.remove_expired(meter_ttl_);","  int total = 0, expired = 0;\n  std::tie(expired, total) = all_meters_.remove_expired(meter_ttl_);\n  GetCounter(\"spectator.expired\")->Add(expired);",file=R)
# ---- edits that keep the behaviour
quiet("local",ERR,ERR,edits=[["  std::string err_msg;","  const bool enabled = cfg.status_metrics_enabled;\n  std::string err_msg;"],["      if (cfg.status_metrics_enabled) {\n        parse_errors_","      if (enabled) {\n        parse_errors_"]]) if False else None
quiet("helper",ERR,"      count_error();\n",edits=[["auto Server::parse_lines(","void Server::count_error() {\n  if (registry_->GetConfig().status_metrics_enabled) {\n    parse_errors_->Increment();\n  }\n}\n\nauto Server::parse_lines("],["server/spectatord.h","  void upkeep();","  void upkeep();\n  void count_error();"]])
quiet("helper2",ERR,"      if (cfg.status_metrics_enabled) {\n        count_error();\n      }\n",edits=[["auto Server::parse_lines(","void Server::count_error() {\n  parse_errors_->Increment();\n}\n\nauto Server::parse_lines("],["server/spectatord.h","  void upkeep();","  void upkeep();\n  void count_error();"]])
quiet("ternary",OK,"    }\n",edits=[[ERR,""],["    auto maybe_err = parser(p);\n","    auto maybe_err = parser(p);\n    if (cfg.status_metrics_enabled) {\n      (maybe_err ? parse_errors_ : parsed_count_)->Increment();\n    }\n"]])
quiet("early","  if (info && cfg.status_metrics_enabled) {\n    udp_packets_dropped_ctr->Set(info->num_dropped);\n    udp_queue->Set(info->rx_queue_bytes);\n  }\n","  if (!info || !cfg.status_metrics_enabled) {\n    return;\n  }\n  udp_packets_dropped_ctr->Set(info->num_dropped);\n  udp_queue->Set(info->rx_queue_bytes);\n")
quiet("flagfirst","  if (info && cfg.status_metrics_enabled) {","  if (cfg.status_metrics_enabled && info.has_value()) {")
quiet("upmerge","#ifdef __linux__\n    update_network_metrics();\n#endif\n    auto pool_stats = spectator::string_pool_stats();\n    if (cfg.status_metrics_enabled) {\n","    auto pool_stats = spectator::string_pool_stats();\n    if (cfg.status_metrics_enabled) {\n#ifdef __linux__\n      update_network_metrics();\n#endif\n")
quiet("uplocal","  while (!should_stop_) {\n    auto start = clock","  const bool status = cfg.status_metrics_enabled;\n  while (!should_stop_) {\n    auto start = clock",edits=[[G1,G1.replace("cfg.status_metrics_enabled","status")]])
quiet("uphelper","      pool_hits->Set(pool_stats.hits);\n      pool_misses->Set(pool_stats.misses);\n","      auto set_access = [&pool_stats](spectator::MonotonicCounter& h, spectator::MonotonicCounter& m) {\n        h.Set(pool_stats.hits);\n        m.Set(pool_stats.misses);\n      };\n      set_access(*pool_hits, *pool_misses);\n")
quiet("pubhelper","      if (status_metrics_enabled) {\n        sentMetrics_->Add(num_measurements);\n      }\n","      count(sentMetrics_, num_measurements);\n",file=P,edits=[["  void refresh_common_tags() {","  void count(const std::shared_ptr<Counter>& ctr, size_t n) {\n    if (registry_->GetConfig().status_metrics_enabled) {\n      ctr->Add(n);\n    }\n  }\n\n  void refresh_common_tags() {"]])
quiet("member",OK,OK.replace("cfg.status_metrics_enabled","status_metrics_"),edits=[["      logger_{Logger()},\n      perc","      logger_{Logger()},\n      status_metrics_{registry->GetConfig().status_metrics_enabled},\n      perc"],["server/spectatord.h","  std::shared_ptr<spdlog::logger> logger_;\n  expiring","  std::shared_ptr<spdlog::logger> logger_;\n  bool status_metrics_;\n  expiring"]])
quiet("logearly","    if (status_metrics_enabled) {\n      PercentileTimer timer{registry_, std::move(id_), absl::Milliseconds(1), absl::Seconds(10)};\n      timer.Record(absl::Now() - start_);\n    }","    if (!status_metrics_enabled) {\n      return;\n    }\n    PercentileTimer timer{registry_, std::move(id_), absl::Milliseconds(1), absl::Seconds(10)};\n    timer.Record(absl::Now() - start_);",file=L)
quiet("regcfg","  if (config_->status_metrics_enabled) {\n    registry_size_","  const auto& cfg = GetConfig();\n  if (cfg.status_metrics_enabled) {\n    registry_size_",file=R)
quiet("regtmp","    registry_size_->Record(res.size());","    const auto n = res.size();\n    registry_size_->Record(static_cast<double>(n));",file=R)
quiet("uptime","    registry_->GetAgeGauge(\"spectatord.uptime\")->UpdateLastSuccess();","    auto uptime = registry_->GetAgeGauge(\"spectatord.uptime\");\n    uptime->UpdateLastSuccess();")
quiet("logif","  entry.log(config_.status_metrics_enabled);\n","  if (config_.status_metrics_enabled) {\n    entry.log(true);\n  }\n",file=C,edits=[]) if False else None
json.dump([b for b in B if b],open("/tmp/p25.json","w"))
