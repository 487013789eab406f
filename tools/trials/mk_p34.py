import json
B=[]
SP="spectator/strings.cc"
def bad(name,old,new,file=SP,checks="P34",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=SP,checks="P34",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
bad("guard2","if ((url.end() - proto_end) < 3) {","if ((url.end() - proto_end) < 2) {")
bad("noguard","  if ((url.end() - proto_end) < 3) {\n    return std::string{url};\n  }\n","")
bad("skip2","proto_end += 3;","proto_end += 2;")
bad("skip4","proto_end += 3;","proto_end += 4;")
bad("noquery","return std::string{path_begin, query_begin};","return std::string{path_begin, url.end()};")
bad("revert","  auto query_begin = std::find(proto_end, url.end(), '?');\n  auto path_begin = std::find(proto_end, query_begin, '/');\n  if (path_begin == query_begin) {\n    return \"/\";\n  }\n","  auto path_begin = std::find(proto_end, url.end(), '/');\n  if (path_begin == url.end()) {\n    return \"/\";\n  }\n  auto query_begin = std::find(path_begin, url.end(), '?');\n")
bad("hostq","auto path_begin = std::find(proto_end, query_begin, '/');","auto path_begin = std::find(url.begin(), query_begin, '/');")
bad("nocolon","  if (proto_end == url.end()) {\n    return std::string{url};  // no protocol, assume just a path\n  }\n","  if (proto_end == url.end()) {\n    return \"/\";\n  }\n")
bad("slash1","return std::string{path_begin, query_begin};","return std::string{path_begin + 1, query_begin};")
bad("empty","  if (url.empty()) {\n    return \"/\";\n  }\n","  if (url.empty()) {\n    return \"/\";\n  }\n  if (url.size() > 2048) return \"/\";\n")
quiet("distance","if ((url.end() - proto_end) < 3) {","if (std::distance(proto_end, url.end()) <= 2) {")
quiet("substr","  return std::string{path_begin, query_begin};","  return std::string{url.substr(path_begin - url.begin(), query_begin - path_begin)};")
quiet("svfind","""  auto proto_end = std::find(url.begin(), url.end(), ':');
  if (proto_end == url.end()) {""","""  auto colon = url.find(':');
  auto proto_end = url.begin() + (colon == std::string_view::npos ? url.size() : colon);
  if (colon == std::string_view::npos) {""")
quiet("swap","  if (url.empty()) {\n    return \"/\";\n  }\n\n  auto proto_end = std::find(url.begin(), url.end(), ':');","  const auto first = url.begin();\n  const auto last = url.end();\n  if (first == last) {\n    return \"/\";\n  }\n\n  auto proto_end = std::find(first, last, ':');")
quiet("allfind","  auto query_begin = std::find(proto_end, url.end(), '?');\n  auto path_begin = std::find(proto_end, query_begin, '/');\n  if (path_begin == query_begin) {\n    return \"/\";\n  }\n","  auto query_begin = std::find(proto_end, url.end(), '?');\n  auto rest = url.substr(proto_end - url.begin(), query_begin - proto_end);\n  auto pos = rest.find('/');\n  if (pos == std::string_view::npos) {\n    return \"/\";\n  }\n  auto path_begin = proto_end + pos;\n")
quiet("helper","auto PathFromUrl(","static auto skip_scheme(std::string_view::const_iterator it) { return it + 3; }\nauto PathFromUrl(",edits=[[SP,"auto PathFromUrl(","static auto skip_scheme(std::string_view::const_iterator it) { return it + 3; }\nauto PathFromUrl("],[SP,"  proto_end += 3;  // skip over ://\n","  proto_end = skip_scheme(proto_end);\n"]])
json.dump(B,open("/tmp/p34.json","w"),indent=1)
