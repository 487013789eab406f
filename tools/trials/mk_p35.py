import json
B=[]
S="server/spectatord.cc"; U="server/udp_server.cc"; L="server/local_server.cc"; C="server/spectatord.cc"
def bad(name,old,new,file=S,checks="P35",**k): B.append(dict(name=name,file=file,old=old,new=new,checks=checks.split(),**k))
def quiet(name,old,new,file=S,checks="P35 P05 P03 P04 P26",**k): B.append(dict(name="q-"+name,file=file,old=old,new=new,checks=checks.split(),expect="quiet",**k))
STATSD='''    auto statsd_parser = [this](char* buffer) {
      return this->parse_statsd(buffer);
    };
    statsd_server = std::make_unique<UdpServer>(io_context, ipv4_only_, *statsd_port_number_, statsd_parser);
'''
LOCAL='''    prepare_socket_path(*socket_path_);
    local_server = std::make_unique<LocalServer>(io_context, *socket_path_, parser);
'''
bad("statsd-parse","return this->parse_statsd(buffer);","return this->parse(buffer);")
bad("unix-statsd","std::make_unique<LocalServer>(io_context, *socket_path_, parser)","std::make_unique<LocalServer>(io_context, *socket_path_, [this](char* b) { return parse_statsd(b); })")
bad("main-statsd","UdpServer udp_server{io_context, ipv4_only_, port_number_, parser};","UdpServer udp_server{io_context, ipv4_only_, port_number_, [this](char* b) { return statsd_port_number_ ? parse_statsd(b) : parse(b); }};")
bad("always-unix","  if (socket_path_) {\n    prepare","  if (socket_path_ || true) {\n    prepare")
bad("both-needed","  if (socket_path_) {\n    prepare","  if (socket_path_ && !statsd_port_number_) {\n    prepare")
bad("statsd-only-v4","  if (statsd_port_number_) {","  if (statsd_port_number_ && ipv4_only_) {")
bad("statsd-port","ipv4_only_, *statsd_port_number_, statsd_parser","ipv4_only_, port_number_, statsd_parser")
bad("port-plus","ipv4_only_, port_number_, parser}","ipv4_only_, port_number_ + 1, parser}")
bad("inner-owner",STATSD,STATSD.replace("    statsd_server = ","    auto statsd_server = "))
bad("inner-local",LOCAL,LOCAL.replace("    local_server = ","    auto local_server = "))
bad("no-start","    statsd_server->Start();\n","")
bad("late-start","    local_server->Start();\n","",edits=[["  io_context.run();\n","  io_context.run();\n  if (local_server) local_server->Start();\n"]])
bad("start-twice","  udp_server.Start();\n","  udp_server.Start();\n  if (statsd_port_number_) udp_server.Start();\n")
bad("v4-false","io_context, ipv4_only_, *statsd","io_context, false, *statsd")
bad("v4-not","io_context, ipv4_only_, port_number_","io_context, !ipv4_only_, port_number_")
bad("ep-swap","if (ipv4_only) return udp::v4(); else return udp::v6();","if (ipv4_only) return udp::v6(); else return udp::v4();",U)
bad("ep-v6","if (ipv4_only) return udp::v4(); else return udp::v6();","return udp::v6();",U)
bad("ep-port0","}() , port_number)}","}() , 0)}",U)
bad("no-unlink","  ::unlink(socket_path.c_str());\n","")
bad("no-umask","  umask(0);\n","")
bad("umask-022","  umask(0);\n","  umask(022);\n")
bad("umask-late","  umask(0);\n","",edits=[["    local_server->Start();\n","    umask(0);\n    local_server->Start();\n"]])
bad("no-mkdir","    ::mkdir(dir.c_str(), 0777);\n","")
bad("mkdir-600","    ::mkdir(dir.c_str(), 0777);\n","    ::mkdir(dir.c_str(), 0666);\n")
bad("late-prepare",LOCAL,LOCAL.split("\n")[1]+"\n"+LOCAL.split("\n")[0]+"\n")
bad("one-signal","signals(io_context, SIGINT, SIGTERM)","signals(io_context, SIGINT)")
bad("no-Stop","        io_context.stop();\n        this->Stop();","        io_context.stop();")
bad("no-iostop","        io_context.stop();\n        this->Stop();","        this->Stop();")
bad("int-only","        io_context.stop();\n        this->Stop();","        if (signo == SIGINT) io_context.stop();\n        this->Stop();",edits=[["int /*signo*/","int signo"]])
bad("two-io","  UdpServer udp_server{io_context, ipv4","  asio::io_context main_context;\n  UdpServer udp_server{main_context, ipv4")

bad("no-run2","  io_context.run();\n","")
bad("inner-signals","  asio::signal_set signals(io_context, SIGINT, SIGTERM);\n  signals.async_wait(\n      [&io_context, this](std::error_code /*ec*/, int /*signo*/) {\n        io_context.stop();\n        this->Stop();\n      });\n","  {\n  asio::signal_set signals(io_context, SIGINT, SIGTERM);\n  signals.async_wait(\n      [&io_context, this](std::error_code /*ec*/, int /*signo*/) {\n        io_context.stop();\n        this->Stop();\n      });\n  }\n")
bad("ctor-swap","      port_number_{port_number},","      port_number_{statsd_port_number ? *statsd_port_number : port_number},")
quiet("order","  UdpServer udp_server{io_context, ipv4_only_, port_number_, parser};","  const bool v4 = ipv4_only_;\n  const int port = port_number_;\n  UdpServer udp_server{io_context, v4, port, parser};")
quiet("has","  if (statsd_port_number_) {","  if (statsd_port_number_.has_value()) {",edits=[["*statsd_port_number_, statsd","statsd_port_number_.value(), statsd"]])
quiet("bind","  auto parser = [this](char* buffer) { return this->parse(buffer); };","  handler_t parser = std::bind(&Server::parse, this, std::placeholders::_1);",edits=[["#include","#include <functional>\n#include"]])
quiet("handler-t","  auto parser = [this](char* buffer)","  const handler_t parser = [this](char* buffer)")
quiet("reset",STATSD,STATSD.replace("statsd_server = std::make_unique<UdpServer>(io_context, ipv4_only_, *statsd_port_number_, statsd_parser);","statsd_server.reset(new UdpServer(io_context, ipv4_only_, *statsd_port_number_, statsd_parser));"))
quiet("optional","  std::unique_ptr<LocalServer> local_server;","  std::optional<LocalServer> local_server;",edits=[["local_server = std::make_unique<LocalServer>(io_context, *socket_path_, parser);","local_server.emplace(io_context, *socket_path_, parser);"]])
quiet("umask-first","  ::unlink(socket_path.c_str());\n","  umask(0);\n  ::unlink(socket_path.c_str());\n",edits=[["so any user can send metrics\n  umask(0);\n","so any user can send metrics\n"]])
quiet("helper","void Server::Start() {","static std::unique_ptr<UdpServer> open_udp(asio::io_context& io, bool v4, int port, const handler_t& h) {\n  auto s = std::make_unique<UdpServer>(io, v4, port, h);\n  s->Start();\n  return s;\n}\n\nvoid Server::Start() {",
  edits=[["    statsd_server = std::make_unique<UdpServer>(io_context, ipv4_only_, *statsd_port_number_, statsd_parser);\n","    statsd_server = open_udp(io_context, ipv4_only_, *statsd_port_number_, statsd_parser);\n"],["    statsd_server->Start();\n",""]])
quiet("vector","  std::unique_ptr<UdpServer> statsd_server;","  std::vector<std::unique_ptr<UdpServer>> extra;",edits=[["    statsd_server = std::make_unique<UdpServer>(io_context, ipv4_only_, *statsd_port_number_, statsd_parser);\n","    auto statsd_server = std::make_unique<UdpServer>(io_context, ipv4_only_, *statsd_port_number_, statsd_parser);\n"],["    statsd_server->Start();\n","    statsd_server->Start();\n    extra.push_back(std::move(statsd_server));\n"]])
quiet("guard","  auto last = socket_path.rfind('/');\n  if (last != std::string::npos) {","  auto last = socket_path.find_last_of('/');\n  if (last == std::string::npos) {\n    umask(0);\n    return;\n  }\n  {")
quiet("fs","    ::mkdir(dir.c_str(), 0777);\n","    std::error_code ec;\n    std::filesystem::create_directories(dir, ec);\n",edits=[["#include","#include <filesystem>\n#include"]])
quiet("ep-ternary","[&ipv4_only]() -> udp {\n                    if (ipv4_only) return udp::v4(); else return udp::v6();\n                  }() , port_number)","ipv4_only ? udp::v4() : udp::v6(), static_cast<unsigned short>(port_number))",U)
quiet("named-ep","    : udp_socket_{io_context, udp::endpoint([&ipv4_only]() -> udp {\n                    if (ipv4_only) return udp::v4(); else return udp::v6();\n                  }() , port_number)},","    : udp_socket_{io_context, make_endpoint(ipv4_only, port_number)},",U,edits=[["// NOLINTNEXTLINE","static udp::endpoint make_endpoint(bool v4, int port) {\n  if (v4) {\n    return udp::endpoint{udp::v4(), static_cast<unsigned short>(port)};\n  }\n  return udp::endpoint{udp::v6(), static_cast<unsigned short>(port)};\n}\n\n// NOLINTNEXTLINE"]])
quiet("sig-add","signals(io_context, SIGINT, SIGTERM);","signals(io_context);\n  signals.add(SIGINT);\n  signals.add(SIGTERM);")
quiet("sig-order","        io_context.stop();\n        this->Stop();","        Stop();\n        io_context.stop();")
quiet("sig-ec","        io_context.stop();\n        this->Stop();","        if (ec) return;\n        io_context.stop();\n        this->Stop();",edits=[["std::error_code /*ec*/","std::error_code ec"]])
quiet("member-local","  std::unique_ptr<LocalServer> local_server;","  const auto& sock = socket_path_;\n  std::unique_ptr<LocalServer> local_server;",edits=[["  if (socket_path_) {\n    prepare_socket_path(*socket_path_);\n    local_server = std::make_unique<LocalServer>(io_context, *socket_path_, parser);","  if (sock.has_value()) {\n    prepare_socket_path(sock.value());\n    local_server = std::make_unique<LocalServer>(io_context, sock.value(), parser);"]])
quiet("raii","  udp_server.Start();\n\n  std::unique_ptr<UdpServer> statsd_server;","  std::unique_ptr<UdpServer> statsd_server;\n  udp_server.Start();\n")
B=[b for b in B if b]
json.dump(B,open("/tmp/p35.json","w"))
