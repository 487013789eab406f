import json
B=[]
S="bin/spectatord_main.cc"
def bad(name,old,new,file=S,checks="P33",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P33",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
URI='''  if (absl::GetFlag(FLAGS_debug)) {
    cfg->uri = "https://atlas-aggr-dev.us-east-1.ieptest.netflix.net/api/v4/update";
  } else if (!maybe_agg_uri.empty()) {
    cfg->uri = std::move(maybe_agg_uri);
  } else if (absl::GetFlag(FLAGS_enable_external)) {
    cfg->external_enabled = true;
    cfg->metatron_dir = absl::GetFlag(FLAGS_metatron_dir);
    cfg->uri = cfg->external_uri;
  }
'''
bad("uri-first",URI,URI.replace("if (absl::GetFlag(FLAGS_debug)) {","if (absl::GetFlag(FLAGS_debug) && maybe_agg_uri.empty()) {"))
bad("ext-first",URI,'''  if (absl::GetFlag(FLAGS_debug)) {
    cfg->uri = "https://atlas-aggr-dev.us-east-1.ieptest.netflix.net/api/v4/update";
  } else if (absl::GetFlag(FLAGS_enable_external)) {
    cfg->external_enabled = true;
    cfg->metatron_dir = absl::GetFlag(FLAGS_metatron_dir);
    cfg->uri = cfg->external_uri;
  } else if (!maybe_agg_uri.empty()) {
    cfg->uri = std::move(maybe_agg_uri);
  }
''')
bad("ext-also",URI,URI.replace("  } else if (absl::GetFlag(FLAGS_enable_external)) {\n    cfg->external_enabled = true;\n","  } else if (absl::GetFlag(FLAGS_enable_external)) {\n").replace("  if (absl::GetFlag(FLAGS_debug))","  cfg->external_enabled = absl::GetFlag(FLAGS_enable_external);\n  if (absl::GetFlag(FLAGS_debug))"))
bad("ext-nouri",URI,URI.replace("    cfg->uri = cfg->external_uri;\n",""))
bad("ext-nocert",URI,URI.replace("    cfg->external_enabled = true;\n",""))
bad("ext-nodir",URI,URI.replace("    cfg->metatron_dir = absl::GetFlag(FLAGS_metatron_dir);\n",""))
bad("uri-ext",URI,URI.replace("    cfg->uri = std::move(maybe_agg_uri);\n","    cfg->uri = std::move(maybe_agg_uri);\n    cfg->external_enabled = absl::GetFlag(FLAGS_enable_external);\n"))
bad("debug-uri",URI,URI.replace("dev.us-east-1.ieptest","dev.us-east-1.iepprod"))
bad("debug-late",URI,URI+'''  if (absl::GetFlag(FLAGS_enable_external)) {
    cfg->uri = cfg->external_uri;
  }
''')
bad("uri-dropped",URI,URI.replace("!maybe_agg_uri.empty()","maybe_agg_uri.size() > 8"))
quiet("uri-switch",URI,'''  const bool dbg = absl::GetFlag(FLAGS_debug);
  const bool ext = absl::GetFlag(FLAGS_enable_external);
  if (dbg || !maybe_agg_uri.empty()) {
    cfg->uri = dbg ? std::string("https://atlas-aggr-dev.us-east-1.ieptest.netflix.net/api/v4/update") : maybe_agg_uri;
  } else if (ext) {
    cfg->uri = cfg->external_uri;
    cfg->metatron_dir = absl::GetFlag(FLAGS_metatron_dir);
    cfg->external_enabled = true;
  }
''')
quiet("uri-helper",URI,"  choose_uri(cfg.get());\n",edits=[["auto main(int argc",'''static void choose_uri(spectator::Config* cfg) {
  if (absl::GetFlag(FLAGS_debug)) {
    cfg->uri = "https://atlas-aggr-dev.us-east-1.ieptest.netflix.net/api/v4/update";
    return;
  }
  auto u = absl::GetFlag(FLAGS_uri);
  if (!u.empty()) {
    cfg->uri = u;
    return;
  }
  if (!absl::GetFlag(FLAGS_enable_external)) return;
  cfg->external_enabled = true;
  cfg->metatron_dir = absl::GetFlag(FLAGS_metatron_dir);
  cfg->uri = cfg->external_uri;
}
auto main(int argc''']])
LOOP='''    for (auto sp : absl::StrSplit(maybe_common_tags, ',')) {
      std::vector<std::string> kv = absl::StrSplit(sp, absl::MaxSplits('=', 1));
      if (kv.size() != 2 || kv.at(0).empty() || kv.at(1).empty()) {
        logger->error("Invalid common tags specified: {}", maybe_common_tags);
        exit(EXIT_FAILURE);
      }
      common_tags[kv.at(0)] = kv.at(1);
    }
'''
bad("pair-empty",LOOP,LOOP.replace(" || kv.at(1).empty()",""))
bad("pair-emptyk",LOOP,LOOP.replace(" || kv.at(0).empty()",""))
bad("pair-skip",LOOP,LOOP.replace("        exit(EXIT_FAILURE);\n","        continue;\n"))
bad("pair-break",LOOP,LOOP.replace("        exit(EXIT_FAILURE);\n","        break;\n"))
bad("pair-ok",LOOP,LOOP.replace("EXIT_FAILURE","EXIT_SUCCESS"))
bad("pair-ret0",LOOP,LOOP.replace("exit(EXIT_FAILURE)","return 0"))
bad("pair-maxsplit",LOOP,LOOP.replace("absl::MaxSplits('=', 1)","'='"))
bad("pair-skipempty",LOOP,LOOP.replace("absl::StrSplit(maybe_common_tags, ',')","absl::StrSplit(maybe_common_tags, ',', absl::SkipEmpty())"))
bad("pair-sep",LOOP,LOOP.replace("absl::StrSplit(maybe_common_tags, ',')","absl::StrSplit(maybe_common_tags, ';')"))
bad("pair-swap",LOOP,LOOP.replace("common_tags[kv.at(0)] = kv.at(1)","common_tags[kv.at(1)] = kv.at(0)"))
bad("pair-two",LOOP,LOOP.replace("kv.size() != 2 || ",""))
bad("pair-and",LOOP,LOOP.replace("kv.at(0).empty() || kv.at(1).empty()","(kv.at(0).empty() && kv.at(1).empty())"))
quiet("pair-if",LOOP,'''    for (auto sp : absl::StrSplit(maybe_common_tags, ',')) {
      std::vector<std::string> kv = absl::StrSplit(sp, absl::MaxSplits('=', 1));
      if (kv.size() == 2 && !kv[0].empty() && !kv[1].empty()) {
        common_tags.insert_or_assign(kv[0], kv[1]);
      } else {
        logger->error("Invalid common tags specified: {}", maybe_common_tags);
        return EXIT_FAILURE;
      }
    }
''')
quiet("pair-pair",LOOP,'''    for (auto sp : absl::StrSplit(maybe_common_tags, ',')) {
      std::pair<std::string, std::string> kv = absl::StrSplit(sp, absl::MaxSplits('=', 1));
      if (kv.first.empty() || kv.second.empty()) {
        logger->error("Invalid common tags specified: {}", maybe_common_tags);
        exit(EXIT_FAILURE);
      }
      common_tags[kv.first] = kv.second;
    }
''')
quiet("pair-cref",LOOP,LOOP.replace("      if (kv.size()","      const auto& k = kv;\n      if (k.size()"))
quiet("pair-helper",LOOP,"    if (!parse_tags(maybe_common_tags, &common_tags)) {\n      exit(EXIT_FAILURE);\n    }\n",edits=[["auto main(int argc",'''static bool parse_tags(const std::string& s, std::map<std::string, std::string>* out) {
  for (auto sp : absl::StrSplit(s, ',')) {
    std::vector<std::string> kv = absl::StrSplit(sp, absl::MaxSplits('=', 1));
    if (kv.size() != 2 || kv.at(0).empty() || kv.at(1).empty()) {
      return false;
    }
    (*out)[kv.at(0)] = kv.at(1);
  }
  return true;
}
auto main(int argc''']])
bad("tags-merge","    std::map<std::string, std::string> common_tags;\n","    std::map<std::string, std::string> common_tags = cfg->common_tags;\n")
bad("tags-forget","    cfg->common_tags = std::move(common_tags);\n","")
NO='''  if (absl::GetFlag(FLAGS_no_common_tags)) {
    cfg->common_tags.clear();
    cfg->status_metrics_enabled = false;
  }
'''
bad("no-status",NO,NO.replace("    cfg->status_metrics_enabled = false;\n",""))
bad("no-clear",NO,NO.replace("    cfg->common_tags.clear();\n",""))
bad("no-only-empty",NO,NO.replace("absl::GetFlag(FLAGS_no_common_tags)","absl::GetFlag(FLAGS_no_common_tags) && maybe_common_tags.empty()"))
bad("no-else",NO,NO.replace("    cfg->common_tags.clear();\n    cfg->status_metrics_enabled = false;\n","    cfg->common_tags.clear();\n")+"  cfg->status_metrics_enabled = !cfg->common_tags.empty();\n")
quiet("no-assign",NO,NO.replace("cfg->common_tags.clear()","cfg->common_tags = {}"))
bad("no-early",NO,"",edits=[["  auto maybe_common_tags =",NO+"  auto maybe_common_tags ="]])
bad("verbose-http","  if (absl::GetFlag(FLAGS_verbose_http)) {\n    cfg->verbose_http = true;\n  }\n","  if (absl::GetFlag(FLAGS_verbose)) {\n    cfg->verbose_http = true;\n  }\n")
bad("ttl","  cfg->meter_ttl = absl::GetFlag(FLAGS_meter_ttl);\n","")
bad("ttl-x","cfg->meter_ttl = absl::GetFlag","cfg->frequency = absl::GetFlag")
bad("limit","  cfg->age_gauge_limit = absl::GetFlag(FLAGS_age_gauge_limit);\n","  cfg->age_gauge_limit = 1000;\n")
bad("socket","  if (absl::GetFlag(FLAGS_enable_socket)) {","  if (absl::GetFlag(FLAGS_enable_socket) || absl::GetFlag(FLAGS_enable_statsd)) {")
bad("socket2","    socket_path = absl::GetFlag(FLAGS_socket_path);","    socket_path = absl::GetFlag(FLAGS_metatron_dir);")
bad("statsd","absl::GetFlag(FLAGS_statsd_port).port","absl::GetFlag(FLAGS_port).port")
bad("statsd-off","  if (absl::GetFlag(FLAGS_enable_statsd)) {","  if (!absl::GetFlag(FLAGS_enable_statsd)) {")
bad("adminport","admin_server(registry, absl::GetFlag(FLAGS_admin_port).port)","admin_server(registry, absl::GetFlag(FLAGS_port).port)")
bad("srvport","absl::GetFlag(FLAGS_ipv4_only), absl::GetFlag(FLAGS_port).port","absl::GetFlag(FLAGS_ipv4_only), absl::GetFlag(FLAGS_admin_port).port")
bad("v4","spectatord::Server server{absl::GetFlag(FLAGS_ipv4_only)","spectatord::Server server{!absl::GetFlag(FLAGS_ipv4_only)")
bad("v4b","spectatord::Server server{absl::GetFlag(FLAGS_ipv4_only)","spectatord::Server server{false")
bad("adminstart","  admin_server.Start();\n","")
bad("regstart","  registry.Start();\n","")
quiet("opt",'''  std::optional<std::string> socket_path;
  if (absl::GetFlag(FLAGS_enable_socket)) {
    socket_path = absl::GetFlag(FLAGS_socket_path);
  }
''','''  auto socket_path = absl::GetFlag(FLAGS_enable_socket) ? std::optional<std::string>(absl::GetFlag(FLAGS_socket_path)) : std::nullopt;
''')
RNG="  if (p->port < 1 || p->port > 65535) {"
bad("port0",RNG,"  if (p->port < 0 || p->port > 65535) {")
bad("port65536",RNG,"  if (p->port < 1 || p->port > 65536) {")
bad("port1024",RNG,"  if (p->port < 1024 || p->port > 65535) {")
bad("port-and",RNG,"  if (p->port < 1 && p->port > 65535) {")
bad("port-cast",RNG,"  if (static_cast<uint16_t>(p->port) < 1) {")
bad("port-true",'    *error = "not in range [1,65535]";\n    return false;','    *error = "not in range [1,65535]";\n    return true;')
bad("port-nan","  if (!absl::ParseFlag(text, &p->port, error)) {\n    return false;","  if (!absl::ParseFlag(text, &p->port, error)) {\n    return true;")
quiet("port-loc",RNG,"  const auto v = p->port;\n  const bool ok = v > 0 && v <= 0xffff;\n  if (!ok) {")
quiet("port-tmp",'''  if (!absl::ParseFlag(text, &p->port, error)) {
    return false;
  }
''','''  int v = 0;
  if (!absl::ParseFlag(text, &v, error)) {
    return false;
  }
  p->port = v;
''')
bad("def-ext","ABSL_FLAG(bool, enable_external, false","ABSL_FLAG(bool, enable_external, true")
bad("def-port","ABSL_FLAG(PortNumber, statsd_port, PortNumber(8125)","ABSL_FLAG(PortNumber, statsd_port, PortNumber(8126)")
bad("def-ttl","absl::Minutes(15)","absl::Minutes(5)")
bad("def-sock",'"/run/spectatord/spectatord.unix"','"/run/spectatord.unix"')
quiet("def-ttl","absl::Minutes(15)","absl::Seconds(900)")
json.dump(B,open("/tmp/p33.json","w"))
